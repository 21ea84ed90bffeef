// Programs of the intermediate representation as text, as far as evaluation
// needs them (without types). Used on both sides.
use ticc_core::ir::{self, Expr};

pub struct Words<'a>(pub std::str::SplitAsciiWhitespace<'a>);

impl<'a> Words<'a> {
    pub fn word(&mut self) -> Option<&'a str> {
        self.0.next()
    }

    pub fn num(&mut self) -> u64 {
        self.0.next().unwrap().parse().unwrap()
    }

    fn bytes(&mut self) -> Vec<u8> {
        let text = &self.0.next().unwrap()[1..];
        (0..text.len() / 2).map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
}

pub struct Decoder<'a, 'b> {
    pub words: &'b mut Words<'a>,
    names: Vec<ir::Name>,
    var: Option<ir::TyVar>,
}

impl Decoder<'_, '_> {
    fn name(&mut self) -> ir::Name {
        self.names[self.words.num() as usize]
    }

    fn boxed(&mut self) -> Box<Expr> {
        Box::new(self.expr())
    }

    fn exprs(&mut self) -> Vec<Expr> {
        let n = self.words.num();
        (0..n).map(|_| self.expr()).collect()
    }

    fn expr(&mut self) -> Expr {
        match self.words.word().unwrap() {
            "true" => Expr::Bool(true),
            "false" => Expr::Bool(false),
            "int" => Expr::Int(self.words.num()),
            "str" => Expr::String(self.words.bytes().into()),
            "name" => Expr::Name(self.name()),
            "call" => Expr::Call(self.boxed(), self.exprs()),
            "if" => Expr::If(self.boxed(), self.boxed(), self.boxed()),
            "op" => {
                let op = match self.words.word().unwrap() {
                    "+" => ir::Op::Add,
                    "-" => ir::Op::Subtract,
                    "*" => ir::Op::Multiply,
                    "/" => ir::Op::Divide,
                    "%" => ir::Op::Modulo,
                    "<" => ir::Op::Less,
                    "<=" => ir::Op::LessEq,
                    ">" => ir::Op::Greater,
                    ">=" => ir::Op::GreaterEq,
                    "==" => ir::Op::Equal,
                    "!=" => ir::Op::NotEqual,
                    op => panic!("operator {op}"),
                };
                let lhs = self.boxed();
                Expr::Op(lhs, op, self.boxed())
            }
            "intr" => {
                let which = match self.words.word().unwrap() {
                    "stringLen" => ir::Intrinsic::StringLen,
                    "stringConcat" => ir::Intrinsic::StringConcat,
                    "stringCharAt" => ir::Intrinsic::StringCharAt,
                    "stringSubstring" => ir::Intrinsic::StringSubstring,
                    "stringFromChar" => ir::Intrinsic::StringFromChar,
                    "intToString" => ir::Intrinsic::IntToString,
                    i => panic!("intrinsic {i}"),
                };
                Expr::Intrinsic(which, self.exprs())
            }
            "lam" => {
                let n = self.words.num();
                let params = (0..n).map(|_| ir::LambdaParam { name: self.name(), ty: ir::Ty::Int }).collect();
                Expr::Lambda(params, self.boxed())
            }
            "match" => {
                let on = self.boxed();
                let n = self.words.num();
                let branches = (0..n)
                    .map(|_| {
                        let ctor = self.name();
                        let k = self.words.num();
                        let bindings = (0..k).map(|_| self.name()).collect();
                        ir::Branch { ctor, bindings, value: self.expr() }
                    })
                    .collect();
                Expr::Match(on, branches)
            }
            "cons" => {
                let ctor = self.name();
                Expr::Construct(ctor, vec![], self.exprs())
            }
            "let" => {
                let name = self.name();
                let value = self.boxed();
                Expr::Let(name, value, self.boxed())
            }
            "rec" => {
                let name = self.name();
                let value = self.boxed();
                Expr::LetRec(name, ir::Ty::Int, value, self.boxed())
            }
            "pi" => Expr::Pi(self.var.clone().unwrap(), self.boxed()),
            "apply" => Expr::PiApply(self.boxed(), ir::Ty::Int),
            "trap" => Expr::Trap(String::from_utf8(self.words.bytes()).unwrap(), ir::Ty::Int),
            w => panic!("expression {w}"),
        }
    }
}

/// Reads `<names> <definitions> (<name> <expr>)* <exports> <name>*`.
pub fn program(words: &mut Words<'_>) -> (ir::Program<'static>, Vec<Expr>) {
    let mut program = ir::Program::new();
    let names = (0..words.num()).map(|_| program.names.new_fresh("x")).collect();
    let var = Some(program.ty.next());
    let count = words.num();
    let mut d = Decoder { words, names, var };
    for _ in 0..count {
        let name = d.name();
        let value = d.expr();
        program.defs.push(ir::ValueDef { name, export_name: None, ty: ir::Ty::Int, value });
    }
    let n = d.words.num();
    let exports = (0..n).map(|_| Expr::Name(d.name())).collect();
    (program, exports)
}

/// A number that depends on the whole result.
pub fn digest(result: &Result<Vec<ticc_eval::Value<()>>, ticc_eval::Trap>) -> u64 {
    fn add(h: &mut u64, x: u64) {
        *h = (*h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        *h ^= *h >> 29;
    }
    fn value(h: &mut u64, v: &ticc_eval::Value<()>) {
        match v {
            ticc_eval::Value::Int(x) => {
                add(h, 1);
                add(h, *x);
            }
            ticc_eval::Value::Bool(x) => add(h, 2 + u64::from(*x)),
            ticc_eval::Value::String(s) => {
                add(h, 4 + s.len() as u64);
                s.iter().for_each(|&b| add(h, u64::from(b)));
            }
            ticc_eval::Value::Composite(c) => {
                add(h, 5 + c.fields().len() as u64);
                c.fields().iter().for_each(|f| value(h, f));
            }
            ticc_eval::Value::Fn(_) => add(h, 6),
        }
    }
    let mut h = 1;
    match result {
        Ok(values) => values.iter().for_each(|v| value(&mut h, v)),
        Err(_) => add(&mut h, 7),
    }
    h
}
