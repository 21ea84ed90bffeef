//! A recursive descent parser for the language, written from its grammar and
//! independent of the compiler's.  It builds the same tree the generator does.
use crate::lang::*;
use crate::props_front::{lex, LK};

pub struct Parsed {
    pub items: Vec<Item>,
    /// byte range from the first to the last token of every complete item
    pub spans: Vec<(usize, usize)>,
    /// the first token that cannot continue any program, or None at the end
    pub error: Option<Option<(usize, usize)>>,
    pub name_span: std::collections::HashMap<Id, (usize, usize)>,
}

struct P<'a> {
    s: &'a str,
    t: Vec<(LK, usize, usize)>,
    i: usize,
    next: &'a mut Id,
    spans: std::collections::HashMap<Id, (usize, usize)>,
}

/// The current token does not fit.
struct Bad;
type R<T> = Result<T, Bad>;

pub fn parse(s: &str, next: &mut Id) -> Parsed {
    let t: Vec<_> = lex(s).into_iter().filter(|t| t.0 != LK::Comment).collect();
    let mut p = P { s, t, i: 0, next, spans: Default::default() };
    let mut items = vec![];
    let mut spans = vec![];
    let mut error = None;
    while p.i < p.t.len() {
        let st = p.t[p.i].1;
        match p.item() {
            Ok(it) => {
                items.push(it);
                spans.push((st, p.t[p.i - 1].2));
            }
            Err(Bad) => {
                error = Some(p.t.get(p.i).map(|t| (t.1, t.2)));
                break;
            }
        }
    }
    Parsed { items, spans, error, name_span: p.spans }
}

impl<'a> P<'a> {
    fn text(&self) -> &'a str {
        self.t.get(self.i).map(|t| &self.s[t.1..t.2]).unwrap_or("")
    }
    fn kind(&self) -> Option<LK> {
        self.t.get(self.i).map(|t| t.0)
    }
    /// the current token is this keyword, operator or punctuation mark
    fn at(&self, s: &str) -> bool {
        matches!(self.kind(), Some(LK::Keyword | LK::Punct | LK::Op)) && self.text() == s
    }
    fn eat(&mut self, s: &str) -> bool {
        let r = self.at(s);
        if r {
            self.i += 1;
        }
        r
    }
    fn want(&mut self, s: &str) -> R<()> {
        if self.eat(s) { Ok(()) } else { Err(Bad) }
    }
    fn id(&mut self) -> Id {
        *self.next += 1;
        *self.next
    }
    fn is_name(&self) -> bool {
        self.kind() == Some(LK::Ident)
    }
    fn name(&mut self) -> R<Name> {
        if !self.is_name() {
            return Err(Bad);
        }
        let s = self.text().to_owned();
        let id = self.id();
        let t = self.t[self.i];
        self.spans.insert(id, (t.1, t.2));
        self.i += 1;
        Ok(Name { id, s })
    }
    fn mk(&mut self, k: EK) -> Expr {
        Expr { id: self.id(), k: Box::new(k) }
    }

    fn item(&mut self) -> R<Item> {
        if self.eat("import") {
            let name = if self.is_name() { Some(self.name()?) } else { None };
            let mut exposed = None;
            if self.eat("(") {
                let mut v = vec![];
                while !self.at(")") {
                    v.push(self.name()?);
                    if !self.eat(",") {
                        break;
                    }
                }
                self.want(")")?;
                exposed = Some(v);
            }
            self.want("from")?;
            if self.kind() != Some(LK::Str) {
                return Err(Bad);
            }
            let path = self.text().trim_matches('"').to_owned();
            self.i += 1;
            self.want(";")?;
            return Ok(Item::Import(ImportItem { name, exposed, path }));
        }
        let export = self.eat("export");
        if self.eat("let") {
            let name = self.name()?;
            let ty = if self.eat(":") { Some(self.ty()?) } else { None };
            self.want("=")?;
            let expr = self.expr()?;
            self.want(";")?;
            return Ok(Item::Value(ValueItem { export, name, ty, expr }));
        }
        self.want("type")?;
        let name = self.name()?;
        let mut params = vec![];
        while self.is_name() {
            params.push(self.name()?);
        }
        self.want("=")?;
        let export_ctors = self.eat("export");
        let lead_pipe = self.eat("|");
        let mut ctors = vec![];
        loop {
            let name = self.name()?;
            let mut fields = vec![];
            loop {
                if self.eat("rec") {
                    fields.push(Field::Rec);
                } else if let Some(t) = self.atom_ty()? {
                    fields.push(Field::Ty(t));
                } else {
                    break;
                }
            }
            ctors.push(CtorDef { name, fields });
            if !self.eat("|") {
                break;
            }
        }
        self.want(";")?;
        Ok(Item::Type(TypeItem { export, export_ctors, name, params, lead_pipe, ctors }))
    }

    fn ty(&mut self) -> R<TyE> {
        let left = if self.is_name() {
            let mut n = self.qualified()?;
            let mut args = vec![];
            while let Some(t) = self.arg_ty()? {
                args.push(t);
            }
            if let TyE::Named { args: a, .. } = &mut n {
                *a = args;
            }
            n
        } else {
            self.arg_ty()?.ok_or(Bad)?
        };
        if self.eat("->") {
            let r = self.ty()?;
            return Ok(TyE::Fn(Box::new(left), Box::new(r)));
        }
        Ok(left)
    }
    fn qualified(&mut self) -> R<TyE> {
        let n = self.name()?;
        if self.eat(".") {
            let m = self.name()?;
            Ok(TyE::Named { ns: Some(n), name: m, args: vec![] })
        } else {
            Ok(TyE::Named { ns: None, name: n, args: vec![] })
        }
    }
    /// like `atom_ty`, in a place where `rec` could not follow
    fn arg_ty(&mut self) -> R<Option<TyE>> {
        if self.at("rec") {
            return Err(Bad);
        }
        self.atom_ty()
    }
    fn atom_ty(&mut self) -> R<Option<TyE>> {
        Ok(Some(if self.eat("int") {
            TyE::Int
        } else if self.eat("bool") {
            TyE::Bool
        } else if self.eat("string") {
            TyE::Str
        } else if self.is_name() {
            self.qualified()?
        } else if self.eat("(") {
            let t = self.ty()?;
            self.want(")")?;
            TyE::Paren(Box::new(t))
        } else {
            return Ok(None);
        }))
    }

    fn expr(&mut self) -> R<Expr> {
        if self.eat("let") {
            let n = self.name()?;
            let t = if self.eat(":") { Some(self.ty()?) } else { None };
            self.want("=")?;
            let v = self.expr()?;
            self.want(";")?;
            let b = self.expr()?;
            return Ok(self.mk(EK::Let(n, t, v, b)));
        }
        if self.eat("match") {
            let d = self.expr()?;
            self.want("with")?;
            let mut cases = vec![];
            while self.eat("|") {
                let n = self.name()?;
                let (ns, ctor) = if self.eat(".") { (Some(n), self.name()?) } else { (None, n) };
                let mut vars = vec![];
                while self.is_name() {
                    vars.push(self.name()?);
                }
                self.want("->")?;
                let body = self.expr()?;
                cases.push(Case { ns, ctor, vars, body });
            }
            self.want("end")?;
            return Ok(self.mk(EK::Match(d, cases)));
        }
        if self.eat("if") {
            let c = self.expr()?;
            self.want("then")?;
            let a = self.expr()?;
            self.want("else")?;
            let b = self.expr()?;
            return Ok(self.mk(EK::If(c, a, b)));
        }
        if self.eat("\\") {
            let fold = self.eat("fold");
            let n = self.name()?;
            self.want("->")?;
            let b = self.expr()?;
            return Ok(self.mk(if fold { EK::Fold(n, b) } else { EK::Lam(n, b) }));
        }
        self.ops()
    }

    /// All operands first, then grouped by binding strength.
    fn ops(&mut self) -> R<Expr> {
        let mut operands = vec![self.app()?];
        let mut ops = vec![];
        while let Some(op) = self.operator() {
            self.i += 1;
            ops.push(op);
            operands.push(self.app()?);
        }
        for level in [9, 7, 3, 1] {
            let mut k = 0;
            while k < ops.len() {
                if ops[k].prec() == level {
                    let op = ops.remove(k);
                    let l = operands.remove(k);
                    let r = std::mem::replace(&mut operands[k], Expr { id: 0, k: Box::new(EK::Bool(false)) });
                    operands[k] = self.mk(EK::Op(l, op, r));
                } else {
                    k += 1;
                }
            }
        }
        Ok(operands.pop().unwrap())
    }
    fn operator(&self) -> Option<BinOp> {
        if self.kind() != Some(LK::Op) {
            return None;
        }
        ALL_OPS.iter().copied().find(|o| o.text() == self.text())
    }
    fn app(&mut self) -> R<Expr> {
        let mut f = self.atom()?.ok_or(Bad)?;
        while let Some(a) = self.atom()? {
            f = self.mk(EK::App(f, a));
        }
        Ok(f)
    }
    fn atom(&mut self) -> R<Option<Expr>> {
        let text = self.text().to_owned();
        let k = match self.kind() {
            Some(LK::Number) => EK::Int(text),
            Some(LK::Str) => EK::Str(text[1..text.len() - 1].to_owned()),
            Some(LK::Hole) => EK::Hole(text[1..].to_owned()),
            Some(LK::Ident) => {
                let n = self.name()?;
                let k = if self.eat(".") {
                    let m = self.name()?;
                    EK::Ns(n, m)
                } else {
                    EK::Var(n)
                };
                return Ok(Some(self.mk(k)));
            }
            _ if self.at("true") || self.at("false") => EK::Bool(text == "true"),
            _ if self.eat("(") => {
                let e = self.expr()?;
                self.want(")")?;
                return Ok(Some(self.mk(EK::Paren(e))));
            }
            _ => return Ok(None),
        };
        self.i += 1;
        Ok(Some(self.mk(k)))
    }
}
