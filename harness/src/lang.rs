//! Abstract syntax of tic programs as the harness builds them.  Nothing here
//! shares code with the compiler under test.

pub type Id = u32;

#[derive(Clone, Debug)]
pub struct Name {
    pub id: Id,
    pub s: String,
}

#[derive(Clone, Debug)]
pub struct Project {
    pub next_id: Id,
    /// Modules in dependency order; the last one is the main module.
    pub modules: Vec<Module>,
}

#[derive(Clone, Debug)]
pub struct Module {
    pub path: String,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Import(ImportItem),
    Type(TypeItem),
    Value(ValueItem),
}

#[derive(Clone, Debug)]
pub struct ImportItem {
    pub name: Option<Name>,
    pub exposed: Option<Vec<Name>>,
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct TypeItem {
    pub export: bool,
    pub export_ctors: bool,
    pub name: Name,
    pub params: Vec<Name>,
    pub lead_pipe: bool,
    pub ctors: Vec<CtorDef>,
}

#[derive(Clone, Debug)]
pub struct CtorDef {
    pub name: Name,
    pub fields: Vec<Field>,
}

#[derive(Clone, Debug)]
pub enum Field {
    Rec,
    Ty(TyE),
}

#[derive(Clone, Debug)]
pub enum TyE {
    Int,
    Bool,
    Str,
    Fn(Box<TyE>, Box<TyE>),
    Named { ns: Option<Name>, name: Name, args: Vec<TyE> },
    Paren(Box<TyE>),
}

#[derive(Clone, Debug)]
pub struct ValueItem {
    pub export: bool,
    pub name: Name,
    pub ty: Option<TyE>,
    pub expr: Expr,
}

#[derive(Clone, Debug)]
pub struct Expr {
    pub id: Id,
    pub k: Box<EK>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, Div, Mod, Lt, Le, Gt, Ge, Eq, Ne, Pipe,
}

pub const ALL_OPS: [BinOp; 12] = [
    BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::Div, BinOp::Mod, BinOp::Lt,
    BinOp::Le, BinOp::Gt, BinOp::Ge, BinOp::Eq, BinOp::Ne, BinOp::Pipe,
];

impl BinOp {
    pub fn text(self) -> &'static str {
        match self {
            BinOp::Add => "+",
            BinOp::Sub => "-",
            BinOp::Mul => "*",
            BinOp::Div => "/",
            BinOp::Mod => "%",
            BinOp::Lt => "<",
            BinOp::Le => "<=",
            BinOp::Gt => ">",
            BinOp::Ge => ">=",
            BinOp::Eq => "==",
            BinOp::Ne => "!=",
            BinOp::Pipe => "|>",
        }
    }
    /// Binding strength; all operators associate to the left.
    pub fn prec(self) -> u32 {
        match self {
            BinOp::Pipe => 1,
            BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Eq | BinOp::Ne => 3,
            BinOp::Add | BinOp::Sub => 7,
            BinOp::Mul | BinOp::Div | BinOp::Mod => 9,
        }
    }
    pub fn is_arith(self) -> bool {
        matches!(self, BinOp::Add | BinOp::Sub | BinOp::Mul | BinOp::Div | BinOp::Mod)
    }
}

#[derive(Clone, Debug)]
pub enum EK {
    Int(String),
    Bool(bool),
    Str(String),
    Var(Name),
    Ns(Name, Name),
    App(Expr, Expr),
    Op(Expr, BinOp, Expr),
    Let(Name, Option<TyE>, Expr, Expr),
    Match(Expr, Vec<Case>),
    If(Expr, Expr, Expr),
    Lam(Name, Expr),
    Fold(Name, Expr),
    Paren(Expr),
    Hole(String),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub ns: Option<Name>,
    pub ctor: Name,
    pub vars: Vec<Name>,
    pub body: Expr,
}

impl Expr {
    pub fn children(&self) -> Vec<&Expr> {
        match &*self.k {
            EK::Int(_) | EK::Bool(_) | EK::Str(_) | EK::Var(_) | EK::Ns(..) | EK::Hole(_) => vec![],
            EK::App(a, b) | EK::Op(a, _, b) | EK::Let(_, _, a, b) => vec![a, b],
            EK::Match(d, cs) => {
                let mut v = vec![d];
                v.extend(cs.iter().map(|c| &c.body));
                v
            }
            EK::If(a, b, c) => vec![a, b, c],
            EK::Lam(_, b) | EK::Fold(_, b) | EK::Paren(b) => vec![b],
        }
    }
    pub fn children_mut(&mut self) -> Vec<&mut Expr> {
        match &mut *self.k {
            EK::Int(_) | EK::Bool(_) | EK::Str(_) | EK::Var(_) | EK::Ns(..) | EK::Hole(_) => vec![],
            EK::App(a, b) | EK::Op(a, _, b) | EK::Let(_, _, a, b) => vec![a, b],
            EK::Match(d, cs) => {
                let mut v = vec![d];
                v.extend(cs.iter_mut().map(|c| &mut c.body));
                v
            }
            EK::If(a, b, c) => vec![a, b, c],
            EK::Lam(_, b) | EK::Fold(_, b) | EK::Paren(b) => vec![b],
        }
    }
    pub fn count(&self) -> usize {
        1 + self.children().iter().map(|c| c.count()).sum::<usize>()
    }
    /// The n-th expression in preorder.
    pub fn nth_mut(&mut self, n: &mut usize) -> Option<&mut Expr> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        // two-step to please the borrow checker
        let len = self.children().len();
        for i in 0..len {
            let size = self.children()[i].count();
            if *n < size {
                let c = self.children_mut().into_iter().nth(i).unwrap();
                return c.nth_mut(n);
            }
            *n -= size;
        }
        None
    }
    fn is_atom(&self) -> bool {
        matches!(&*self.k, EK::Int(_) | EK::Bool(_) | EK::Str(_) | EK::Var(_) | EK::Ns(..) | EK::Paren(_) | EK::Hole(_))
    }
    fn is_loose(&self) -> bool {
        matches!(&*self.k, EK::Let(..) | EK::Match(..) | EK::If(..) | EK::Lam(..) | EK::Fold(..))
    }
}

impl Project {
    pub fn new() -> Project {
        Project { next_id: 0, modules: vec![] }
    }
    pub fn fresh(&mut self) -> Id {
        self.next_id += 1;
        self.next_id
    }
    pub fn name(&mut self, s: &str) -> Name {
        Name { id: self.fresh(), s: s.to_owned() }
    }
    pub fn expr(&mut self, k: EK) -> Expr {
        Expr { id: self.fresh(), k: Box::new(k) }
    }
    pub fn main(&self) -> &Module {
        self.modules.last().unwrap()
    }

    /// Insert the parentheses the grammar requires so that printing the tree
    /// and reading it back gives the same tree.
    pub fn fix_parens(&mut self) {
        let mut next = self.next_id;
        for m in &mut self.modules {
            for i in &mut m.items {
                match i {
                    Item::Value(v) => {
                        fix_expr(&mut v.expr, &mut next);
                        if let Some(t) = &mut v.ty {
                            fix_ty(t, 0);
                        }
                    }
                    Item::Type(t) => {
                        for c in &mut t.ctors {
                            for f in &mut c.fields {
                                if let Field::Ty(t) = f {
                                    fix_ty(t, 2);
                                }
                            }
                        }
                    }
                    Item::Import(_) => {}
                }
            }
        }
        self.next_id = next;
    }
}

fn wrap(e: &mut Expr, next: &mut Id) {
    *next += 1;
    let id = *next;
    let inner = std::mem::replace(e, Expr { id: 0, k: Box::new(EK::Bool(false)) });
    *e = Expr { id, k: Box::new(EK::Paren(inner)) };
}

fn fix_expr(e: &mut Expr, next: &mut Id) {
    for c in e.children_mut() {
        fix_expr(c, next);
    }
    match &mut *e.k {
        EK::App(f, a) => {
            // function: atom or application; argument: atom
            if !f.is_atom() && !matches!(&*f.k, EK::App(..)) {
                wrap(f, next);
            }
            if !a.is_atom() {
                wrap(a, next);
            }
        }
        EK::Op(l, op, r) => {
            let need_l = match &*l.k {
                EK::Op(_, lop, _) => lop.prec() < op.prec(),
                _ => l.is_loose(),
            };
            if need_l {
                wrap(l, next);
            }
            let need_r = match &*r.k {
                EK::Op(_, rop, _) => rop.prec() <= op.prec(),
                _ => r.is_loose(),
            };
            if need_r {
                wrap(r, next);
            }
        }
        EK::Let(_, Some(t), _, _) => fix_ty(t, 0),
        _ => {}
    }
}

/// level 0: anything; 1: left of an arrow; 2: atom (argument or field)
fn fix_ty(t: &mut TyE, level: u8) {
    let need = match t {
        TyE::Fn(a, b) => {
            fix_ty(a, 1);
            fix_ty(b, 0);
            level >= 1
        }
        TyE::Named { args, .. } => {
            for a in args.iter_mut() {
                fix_ty(a, 2);
            }
            level >= 2 && !args.is_empty()
        }
        TyE::Paren(i) => {
            fix_ty(i, 0);
            false
        }
        _ => false,
    };
    if need {
        let inner = std::mem::replace(t, TyE::Int);
        *t = TyE::Paren(Box::new(inner));
    }
}
