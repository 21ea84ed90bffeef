//! Properties about the intermediate representation, and determinism.
use crate::cut::{self, guard, MainOut, Out, Runner};
use crate::driver::Ctx;
use crate::irx;
use crate::print::MILD;
use crate::props_sem::{has_main, input, run_cfg, subject};
use crate::refeval::Eval;
use crate::util::*;
use serde_json::json;

// ---- P19: the printed form --------------------------------------------------------

pub fn p19(ctx: &mut Ctx) {
    let mut r = ctx.rng("P19");
    let mut cfg = run_cfg(&mut r);
    if r.chance(25) {
        cfg.hole = 2;
    }
    let Some(prog) = subject(ctx, &mut r, &cfg, MILD, 40) else { return };
    let mut ev = Eval::new(&prog.p, &prog.info, 60_000);
    let affordable = !matches!(ev.run(), Err(crate::refeval::Stop::Fuel | crate::refeval::Stop::Depth));
    let inp = input(&mut r);
    let main = affordable && has_main(&prog) && ev.run_main(&inp).is_ok();
    for optimize in [false, true] {
        let Some(mut u) = accepted_with(ctx, &prog.srcs, cut::Options { verify: false, optimize }) else { return };
        let Ok(text) = guard(|| u.emit_ir()) else {
            ctx.count("skipped_panic_in_back_end", 1);
            return;
        };
        ctx.eval();
        ctx.count("ir_bytes", text.len() as u64);
        let defs = match irx::parse(&text) {
            Ok(d) => d,
            Err(e) => {
                ctx.fail(&format!("printed IR cannot be read: {}", e.split(" after ").next().unwrap_or("")), format!("optimize {}: {}\n{}", optimize, e, shorten(&text, 3000)), &prog.srcs);
                return;
            }
        };
        ctx.count("definitions_read", defs.len() as u64);
        #[cfg(tic_verif)]
        {
            let (real, again) = ticc::verif::with_core(&mut u, |p| (irx::conv::program(&p).1, ticc_core::pretty_print(&p)));
            ctx.eval();
            if again != text {
                ctx.fail("IR printed differently the second time", format!("optimize {}\n{}", optimize, first_diff(&text, &again)), &prog.srcs);
                return;
            }
            if real.len() != defs.len() {
                ctx.fail("printed IR has another number of definitions", format!("{} in the program, {} in the text", real.len(), defs.len()), &prog.srcs);
                return;
            }
            for (a, b) in real.iter().zip(&defs) {
                if a != b {
                    let (x, y) = (format!("{:?}", a), format!("{:?}", b));
                    let at = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(60);
                    let cut = |s: &str| s.bytes().skip(at).take(300).map(|b| b as char).collect::<String>();
                    ctx.fail("printed IR reads as another program", format!("optimize {} definition {}\nprogram: …{}\nprinted: …{}", optimize, a.name, cut(&x), cut(&y)), &prog.srcs);
                    return;
                }
            }
            ctx.count("definitions_compared", defs.len() as u64);
        }
        ctx.class(&format!("{}/{}/{}", shape(&prog.p), optimize, text.len() / 400));
        if !affordable {
            continue;
        }
        // the text means what the program does
        let mut m = irx::Machine::new(3_000_000);
        let expected = m.run(&defs);
        let steps = 3_000_000 - m.fuel;
        ctx.count("ir_steps", steps);
        let out = cut::run(&mut u, Runner::Bytecode);
        ctx.eval();
        let good = match (&expected, &out) {
            (Err(irx::Stop::Fuel | irx::Stop::Depth), _) => {
                ctx.count("skipped_machine_out_of_fuel", 1);
                continue;
            }
            (_, Out::Panic(_)) => {
                ctx.count("skipped_panic_in_back_end", 1);
                continue;
            }
            (Ok(a), Out::Values(b)) => a == b,
            (Err(irx::Stop::Trap(_)), Out::Trap(_)) => true,
            _ => false,
        };
        if !good {
            let d = match (&expected, &out) {
                (Ok(a), Out::Values(b)) => first_diff(a, b),
                (a, b) => format!("meaning of the text {}\n got {}", shorten(&format!("{:?}", a), 300), shorten(&format!("{:?}", b), 300)),
            };
            ctx.fail("printed IR means something else than running the program gives", format!("optimize {}\n{}", optimize, d), &prog.srcs);
            return;
        }
        ctx.count("programs_evaluated", 1);
        if main && expected.is_ok() {
            m.fuel = 2_000_000;
            m.depth = 0;
            let want = m.main(&defs, &inp);
            let got = cut::run_main(&mut u, Runner::Bytecode, &inp);
            ctx.eval();
            let good = match (&want, &got) {
                (Err(irx::Stop::Fuel | irx::Stop::Depth), _) => true,
                (Ok(a), MainOut::Bytes(b)) => a == b,
                (Err(irx::Stop::Trap(_)), MainOut::Trap(_)) => true,
                _ => false,
            };
            if !good {
                ctx.fail("main of the printed IR means something else than running it gives", format!("optimize {} input {:?}\nmeaning of the text {:?}\n got {:?}", optimize, inp, want, got), &prog.srcs);
                return;
            }
        }
    }
    ctx.sample(|| json!({"main_module": shorten(&prog.srcs.last().unwrap().1, 400)}));
}

// ---- P25: the validator -------------------------------------------------------------

#[cfg(not(tic_verif))]
pub fn p25(ctx: &mut Ctx) {
    let mut r = ctx.rng("P25");
    let cfg = run_cfg(&mut r);
    let Some(prog) = subject(ctx, &mut r, &cfg, MILD, 40) else { return };
    for optimize in [false, true] {
        let Some(mut u) = accepted_with(ctx, &prog.srcs, cut::Options { verify: true, optimize }) else { return };
        ctx.eval();
        if let Err(e) = guard(|| u.emit_ir()) {
            ctx.fail("IR of an accepted program rejected", e, &prog.srcs);
        }
    }
    ctx.class(&shape(&prog.p));
}

#[cfg(tic_verif)]
pub use validator::p25;

#[cfg(tic_verif)]
mod validator {
    use super::*;
    use crate::rng::Rng;
    use ticc_core::ir;

    fn children(e: &mut ir::Expr) -> Vec<&mut ir::Expr> {
        match e {
            ir::Expr::Bool(_) | ir::Expr::Int(_) | ir::Expr::String(_) | ir::Expr::Name(_) | ir::Expr::Trap(..) => vec![],
            ir::Expr::Call(f, xs) => std::iter::once(&mut **f).chain(xs.iter_mut()).collect(),
            ir::Expr::If(a, b, c) => vec![a, b, c],
            ir::Expr::Op(a, _, b) => vec![a, b],
            ir::Expr::Intrinsic(_, xs) | ir::Expr::Construct(_, _, xs) => xs.iter_mut().collect(),
            ir::Expr::Lambda(_, b) => vec![b],
            ir::Expr::Match(d, bs) => std::iter::once(&mut **d).chain(bs.iter_mut().map(|b| &mut b.value)).collect(),
            ir::Expr::Let(_, a, b) | ir::Expr::LetRec(_, _, a, b) => vec![a, b],
            ir::Expr::Pi(_, e) | ir::Expr::PiApply(e, _) => vec![e],
        }
    }

    fn count(e: &mut ir::Expr) -> usize {
        1 + children(e).into_iter().map(count).sum::<usize>()
    }

    /// The n-th expression in preorder.
    fn nth<'a>(e: &'a mut ir::Expr, n: &mut usize) -> Option<&'a mut ir::Expr> {
        if *n == 0 {
            return Some(e);
        }
        *n -= 1;
        for c in children(e) {
            let k = count(c);
            if *n < k {
                return nth(c, n);
            }
            *n -= k;
        }
        None
    }

    fn binders(e: &mut ir::Expr, out: &mut Vec<ir::Name>) {
        match e {
            ir::Expr::Lambda(ps, _) => out.extend(ps.iter().map(|p| p.name)),
            ir::Expr::Match(_, bs) => out.extend(bs.iter().flat_map(|b| b.bindings.iter().copied())),
            ir::Expr::Let(n, ..) | ir::Expr::LetRec(n, ..) => out.push(*n),
            _ => {}
        }
        for c in children(e) {
            binders(c, out);
        }
    }

    fn types_in(e: &mut ir::Expr, out: &mut Vec<ir::Ty>) {
        match e {
            ir::Expr::Lambda(ps, _) => out.extend(ps.iter().map(|p| p.ty.clone())),
            ir::Expr::LetRec(_, t, ..) | ir::Expr::PiApply(_, t) | ir::Expr::Trap(_, t) => out.push(t.clone()),
            ir::Expr::Construct(_, ts, _) => out.extend(ts.iter().cloned()),
            _ => {}
        }
        for c in children(e) {
            types_in(c, out);
        }
    }

    struct Pool {
        names: Vec<ir::Name>,
        types: Vec<ir::Ty>,
        ctors: Vec<ir::Name>,
    }

    fn ty_edit(r: &mut Rng, t: &mut ir::Ty, pool: &Pool) -> bool {
        match t {
            ir::Ty::Fn(ps, out) if r.chance(50) => match r.below(4) {
                0 if !ps.is_empty() => {
                    let k = r.below(ps.len());
                    ty_edit(r, &mut ps[k], pool)
                }
                1 if ps.len() > 1 => {
                    ps.pop();
                    true
                }
                2 if ps.len() > 1 => {
                    ps.swap(0, 1);
                    true
                }
                _ => ty_edit(r, out, pool),
            },
            ir::Ty::Named(_, a) if !a.is_empty() && r.chance(60) => {
                if r.chance(15) {
                    a.pop();
                    return true;
                }
                let k = r.below(a.len());
                ty_edit(r, &mut a[k], pool)
            }
            ir::Ty::Abs(_, b) if r.chance(60) => ty_edit(r, b, pool),
            _ => {
                *t = match r.below(5) {
                    0 => ir::Ty::Int,
                    1 => ir::Ty::Bool,
                    2 => ir::Ty::String,
                    _ if !pool.types.is_empty() => r.pick(&pool.types).clone(),
                    _ => ir::Ty::Int,
                };
                true
            }
        }
    }

    fn literal(r: &mut Rng) -> ir::Expr {
        match r.below(3) {
            0 => ir::Expr::Int(r.below(9) as u64),
            1 => ir::Expr::Bool(true),
            _ => ir::Expr::String(ir::ByteString::from(&b"x"[..])),
        }
    }

    /// Changes one thing; returns what.
    fn edit(r: &mut Rng, p: &mut ir::Program<'_>) -> Option<&'static str> {
        if p.defs.is_empty() {
            return None;
        }
        let mut pool = Pool { names: p.defs.iter().map(|d| d.name).collect(), types: vec![], ctors: vec![] };
        for t in &p.types {
            pool.ctors.extend(t.cases.iter().map(|c| c.name));
        }
        let k = r.below(p.defs.len());
        // names that are near are more often of the same type
        let mut d = p.defs[k].value.clone();
        binders(&mut d, &mut pool.names);
        types_in(&mut d, &mut pool.types);
        if r.chance(8) {
            return Some(match r.below(5) {
                0 => {
                    let j = r.below(p.defs.len());
                    if j == k {
                        return None;
                    }
                    p.defs.swap(j, k);
                    "order of definitions"
                }
                1 => {
                    if !ty_edit(r, &mut p.defs[k].ty, &pool) {
                        return None;
                    }
                    "type of a definition"
                }
                2 => {
                    p.defs.remove(k);
                    "definition removed"
                }
                3 => {
                    if p.types.is_empty() {
                        return None;
                    }
                    let t = r.below(p.types.len());
                    if p.types[t].cases.is_empty() {
                        return None;
                    }
                    let c = r.below(p.types[t].cases.len());
                    let fs = &mut p.types[t].cases[c].fields;
                    if fs.is_empty() || r.chance(20) {
                        fs.push(ir::Ty::Int);
                    } else {
                        let f = r.below(fs.len());
                        if r.chance(30) {
                            fs.remove(f);
                        } else {
                            ty_edit(r, &mut fs[f], &pool);
                        }
                    }
                    "fields of a constructor"
                }
                _ => {
                    if p.types.is_empty() {
                        return None;
                    }
                    let t = r.below(p.types.len());
                    p.types.remove(t);
                    "type removed"
                }
            });
        }
        let d = &mut p.defs[k].value;
        let n = count(d);
        for _ in 0..6 {
            let mut at = r.below(n);
            let e = nth(d, &mut at)?;
            let roll = r.below(12);
            let what = match e {
                _ if roll == 0 => {
                    *e = literal(r);
                    "expression replaced by a literal"
                }
                _ if roll == 1 && !pool.names.is_empty() => {
                    *e = ir::Expr::Name(*r.pick(&pool.names));
                    "expression replaced by a name"
                }
                ir::Expr::Name(x) => {
                    *x = *r.pick(&pool.names);
                    "another name"
                }
                ir::Expr::Call(_, xs) => match roll {
                    2..=4 if xs.len() > 1 => {
                        let (i, j) = (r.below(xs.len()), r.below(xs.len()));
                        xs.swap(i, j);
                        "arguments swapped"
                    }
                    5 | 6 if !xs.is_empty() => {
                        xs.pop();
                        "argument removed"
                    }
                    7 => {
                        xs.push(literal(r));
                        "argument added"
                    }
                    8 if !xs.is_empty() => {
                        *e = xs.remove(0);
                        "call replaced by its argument"
                    }
                    _ if !xs.is_empty() => {
                        let i = r.below(xs.len());
                        xs[i] = literal(r);
                        "argument replaced by a literal"
                    }
                    _ => continue,
                },
                ir::Expr::Intrinsic(k, xs) => match roll {
                    2..=5 => {
                        *k = *r.pick(&[ir::Intrinsic::StringLen, ir::Intrinsic::StringConcat, ir::Intrinsic::StringCharAt, ir::Intrinsic::StringSubstring, ir::Intrinsic::StringFromChar, ir::Intrinsic::IntToString]);
                        "another intrinsic"
                    }
                    6 if xs.len() > 1 => {
                        let n = xs.len();
                        xs.swap(0, n - 1);
                        "operands swapped"
                    }
                    7 => {
                        xs.pop();
                        "operand removed"
                    }
                    8 => {
                        xs.push(literal(r));
                        "operand added"
                    }
                    _ => {
                        if xs.is_empty() {
                            continue;
                        }
                        let i = r.below(xs.len());
                        xs[i] = literal(r);
                        "operand replaced by a literal"
                    }
                },
                ir::Expr::If(a, b, c) => match roll {
                    2 | 3 => {
                        **a = literal(r);
                        "condition replaced by a literal"
                    }
                    4..=6 => {
                        **b = literal(r);
                        "branch replaced by a literal"
                    }
                    7..=9 => {
                        **c = literal(r);
                        "branch replaced by a literal"
                    }
                    _ => {
                        std::mem::swap(a, b);
                        "condition swapped with a branch"
                    }
                },
                ir::Expr::Op(a, o, b) => match roll {
                    2..=5 => {
                        *o = *r.pick(&[ir::Op::Add, ir::Op::Modulo, ir::Op::Less, ir::Op::Equal, ir::Op::NotEqual, ir::Op::GreaterEq, ir::Op::Divide]);
                        "another operator"
                    }
                    6 | 7 => {
                        **a = literal(r);
                        "operand replaced by a literal"
                    }
                    _ => {
                        **b = literal(r);
                        "operand replaced by a literal"
                    }
                },
                ir::Expr::Lambda(ps, b) => match roll {
                    2..=5 if !ps.is_empty() => {
                        let i = r.below(ps.len());
                        if !ty_edit(r, &mut ps[i].ty, &pool) {
                            continue;
                        }
                        "type of a parameter"
                    }
                    6 if ps.len() > 1 => {
                        let n = ps.len();
                        ps.swap(0, n - 1);
                        "parameters swapped"
                    }
                    7 if !ps.is_empty() => {
                        ps.pop();
                        "parameter removed"
                    }
                    8 => {
                        let b = (**b).clone();
                        *e = b;
                        "function replaced by its body"
                    }
                    _ => continue,
                },
                ir::Expr::Match(d, bs) => match roll {
                    2 | 3 if !bs.is_empty() => {
                        let i = r.below(bs.len());
                        bs[i].ctor = *r.pick(&pool.ctors);
                        "another constructor in a case"
                    }
                    4 if !bs.is_empty() => {
                        let i = r.below(bs.len());
                        if bs[i].bindings.pop().is_none() {
                            continue;
                        }
                        "binding removed"
                    }
                    5 | 6 if !bs.is_empty() => {
                        let i = r.below(bs.len());
                        bs[i].value = literal(r);
                        "case replaced by a literal"
                    }
                    7 if bs.len() > 1 => {
                        let (x, y) = bs.split_at_mut(1);
                        std::mem::swap(&mut x[0].bindings, &mut y[0].bindings);
                        "bindings of two cases swapped"
                    }
                    8 if !bs.is_empty() => {
                        let i = r.below(bs.len());
                        let n = bs[i].bindings.len();
                        if n < 2 {
                            continue;
                        }
                        bs[i].bindings.swap(0, n - 1);
                        "bindings of a case swapped"
                    }
                    9 => {
                        **d = literal(r);
                        "matched value replaced by a literal"
                    }
                    10 => {
                        bs.clear();
                        "all cases removed"
                    }
                    _ if !bs.is_empty() => {
                        let i = r.below(bs.len());
                        let v = bs[i].value.clone();
                        *e = v;
                        "match replaced by a case"
                    }
                    _ => continue,
                },
                ir::Expr::Construct(c, ts, xs) => match roll {
                    2..=4 => {
                        *c = *r.pick(&pool.ctors);
                        "another constructor"
                    }
                    5 | 6 if !ts.is_empty() => {
                        let i = r.below(ts.len());
                        if !ty_edit(r, &mut ts[i], &pool) {
                            continue;
                        }
                        "type of a constructed value"
                    }
                    7 if !ts.is_empty() => {
                        ts.pop();
                        "type of a constructed value removed"
                    }
                    8 if xs.len() > 1 => {
                        let n = xs.len();
                        xs.swap(0, n - 1);
                        "fields swapped"
                    }
                    9 if !xs.is_empty() => {
                        xs.pop();
                        "field removed"
                    }
                    10 => {
                        xs.push(literal(r));
                        "field added"
                    }
                    _ if !xs.is_empty() => {
                        let i = r.below(xs.len());
                        xs[i] = literal(r);
                        "field replaced by a literal"
                    }
                    _ => continue,
                },
                ir::Expr::Let(_, a, b) => match roll {
                    2..=5 => {
                        **a = literal(r);
                        "value replaced by a literal"
                    }
                    6..=8 => {
                        let b = (**b).clone();
                        *e = b;
                        "binding of a variable removed"
                    }
                    _ => {
                        std::mem::swap(a, b);
                        "value swapped with the body"
                    }
                },
                ir::Expr::LetRec(_, t, a, b) => match roll {
                    2..=5 => {
                        if !ty_edit(r, t, &pool) {
                            continue;
                        }
                        "type of a recursive function"
                    }
                    6 => {
                        let b = (**b).clone();
                        *e = b;
                        "binding of a recursive function removed"
                    }
                    7 => {
                        **a = literal(r);
                        "recursive function replaced by a literal"
                    }
                    _ => continue,
                },
                ir::Expr::Pi(_, b) => {
                    let b = (**b).clone();
                    *e = b;
                    "type abstraction removed"
                }
                ir::Expr::PiApply(x, t) => {
                    if roll < 7 {
                        if !ty_edit(r, t, &pool) {
                            continue;
                        }
                        "type argument"
                    } else {
                        let x = (**x).clone();
                        *e = x;
                        "type application removed"
                    }
                }
                ir::Expr::Trap(_, t) => {
                    if !ty_edit(r, t, &pool) {
                        continue;
                    }
                    "type of a trap"
                }
                _ => {
                    *e = literal(r);
                    "expression replaced by a literal"
                }
            };
            return Some(what);
        }
        None
    }

    pub fn p25(ctx: &mut Ctx) {
        let mut r = ctx.rng("P25");
        let mut cfg = run_cfg(&mut r);
        cfg.std = if r.chance(70) { 0 } else { 30 };
        cfg.poly = 60;
        cfg.hole = 1;
        let Some(prog) = subject(ctx, &mut r, &cfg, MILD, 30) else { return };
        let optimize = r.chance(50);
        let Some(mut u) = accepted_with(ctx, &prog.srcs, cut::Options { verify: false, optimize }) else { return };
        let mut report: Option<(String, String)> = None;
        let res = guard(|| {
            ticc::verif::with_core(&mut u, |p| {
                ctx.eval();
                let (types, defs) = irx::conv::program(&p);
                if let Err(e) = irx::Checker::check(&types, &defs) {
                    report = Some(("IR of an accepted program is not well typed".into(), e));
                    return;
                }
                if let Err(e) = guard(|| ticc_core::assert_valid(&p)) {
                    report = Some(("IR of an accepted program rejected".into(), e));
                    return;
                }
                ctx.count("valid_programs", 1);
                for _ in 0..60 {
                    let mut q = p.clone();
                    let Some(what) = edit(&mut r, &mut q) else { continue };
                    ctx.eval();
                    let (types, defs) = irx::conv::program(&q);
                    let want = irx::Checker::check(&types, &defs);
                    let got = guard(|| ticc_core::assert_valid(&q));
                    match (&want, &got) {
                        (Err(e), Ok(())) => {
                            report = Some((format!("ill typed IR accepted after: {}", what), format!("{}\n{}", e, shorten(&ticc_core::pretty_print(&q), 4000))));
                            return;
                        }
                        (Err(e), Err(_)) => {
                            ctx.count(&format!("rejected: {}", what), 1);
                            ctx.class(&format!("{} {}", what, crate::driver::strip_digits(&shorten(e, 50))));
                        }
                        (Ok(()), Ok(())) => ctx.count("edits_that_stay_valid", 1),
                        (Ok(()), Err(_)) => ctx.count("edits_rejected_only_by_the_validator", 1),
                    }
                }
            })
        });
        if res.is_err() {
            ctx.count("skipped_panic_in_back_end", 1);
        }
        if let Some((k, d)) = report {
            ctx.fail(&k, format!("optimize {}\n{}", optimize, d), &prog.srcs);
            return;
        }
        ctx.sample(|| json!({"main_module": shorten(&prog.srcs.last().unwrap().1, 400)}));
    }
}
