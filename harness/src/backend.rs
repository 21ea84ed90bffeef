//! Properties of the evaluators' machinery: memory, stack and primitives.
use crate::cut::{self, guard, MainOut, Out, Runner, RUNNERS};
use crate::driver::{Ctx, Tier};
use crate::print::MILD;
use crate::props_sem::{input, run_cfg, subject};
use crate::refeval::Eval;
use crate::rng::Rng;
use crate::util::*;
use serde_json::json;

// ---- allocation counter ------------------------------------------------------

pub mod meter {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;

    thread_local! {
        static NOW: Cell<isize> = const { Cell::new(0) };
        static PEAK: Cell<isize> = const { Cell::new(0) };
    }

    /// Counts what each thread holds.
    pub struct Meter;

    fn add(n: isize) {
        let _ = NOW.try_with(|c| {
            let v = c.get() + n;
            c.set(v);
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        });
    }

    unsafe impl GlobalAlloc for Meter {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if !p.is_null() {
                add(l.size() as isize);
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l);
            add(-(l.size() as isize));
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = System.realloc(p, l, n);
            if !q.is_null() {
                add(n as isize - l.size() as isize);
            }
            q
        }
    }

    /// Bytes held at most while `f` runs, above what was held before.
    pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
        let start = NOW.with(|c| c.get());
        PEAK.with(|p| p.set(start));
        let r = f();
        (r, (PEAK.with(|p| p.get()) - start).max(0) as u64)
    }
}

// ---- observing the bytecode runtime --------------------------------------------

#[derive(Default, Clone, Debug)]
pub struct Control {
    pub every: u64,
    pub on_reserve: bool,
    pub grow: u64,
    pub check: bool,
    pub poison: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Observed {
    pub steps: u64,
    pub collections: u64,
    pub forced: u64,
    pub checked_objects: u64,
    pub moved_objects: u64,
    pub max_reachable: u64,
    pub max_retained: u64,
    pub max_capacity: u64,
    pub max_stack: u64,
    pub failure: Option<String>,
}

pub const HOOKED: bool = cfg!(tic_verif);

#[cfg(tic_verif)]
pub fn watched<T>(c: &Control, f: impl FnOnce() -> T) -> (T, Observed) {
    ticc_eval::verif::start(ticc_eval::verif::Control { every: c.every, on_reserve: c.on_reserve, grow: c.grow, check: c.check, poison: c.poison });
    let r = f();
    let o = ticc_eval::verif::stop().unwrap_or_default();
    let o = Observed {
        steps: o.steps,
        collections: o.collections,
        forced: o.forced,
        checked_objects: o.checked_objects,
        moved_objects: o.moved_objects,
        max_reachable: o.max_reachable,
        max_retained: o.max_retained,
        max_capacity: o.max_capacity,
        max_stack: o.max_stack,
        failure: o.failure,
    };
    (r, o)
}

#[cfg(not(tic_verif))]
pub fn watched<T>(_: &Control, f: impl FnOnce() -> T) -> (T, Observed) {
    (f(), Observed::default())
}

// ---- P21: garbage collection -----------------------------------------------------

pub fn p21(ctx: &mut Ctx) {
    let mut r = ctx.rng("P21");
    let cfg = run_cfg(&mut r);
    let Some(prog) = subject(ctx, &mut r, &cfg, MILD, 75) else { return };
    let mut ev = Eval::new(&prog.p, &prog.info, 60_000);
    if matches!(ev.run(), Err(crate::refeval::Stop::Fuel | crate::refeval::Stop::Depth)) {
        ctx.count("skipped_reference_out_of_fuel", 1);
        return;
    }
    let main = crate::props_sem::has_main(&prog);
    let inp = match r.below(6) {
        0 => vec![b'a' + r.below(26) as u8; r.range(200, 8000)],
        _ => input(&mut r),
    };
    let main = main && ev.run_main(&inp).is_ok();
    let optimize = r.chance(50);
    let Some(mut u) = accepted_with(ctx, &prog.srcs, cut::Options { verify: false, optimize }) else { return };
    // what another interpreter, without this heap, says
    let other = cut::run(&mut u, Runner::Lambda);
    let other_main = main.then(|| cut::run_main(&mut u, Runner::Lambda, &inp));
    let mut controls = vec![Control { check: true, poison: true, ..Control::default() }];
    let (_, plain) = watched(&Control::default(), || {
        cut::run(&mut u, Runner::Bytecode);
        main.then(|| cut::run_main(&mut u, Runner::Bytecode, &inp));
    });
    if HOOKED {
        // collections at every instruction if that is affordable
        let reach = plain.max_retained.max(64) / 24;
        let every = (plain.steps * reach / 400_000).max(1);
        controls.push(Control { every, on_reserve: false, grow: *r.pick(&[1, 2, 5]), check: true, poison: true });
        controls.push(Control { every: 0, on_reserve: every < 40, grow: *r.pick(&[0, 1, 3]), check: r.chance(50), poison: true });
        controls.push(Control { every: every * r.range(2, 30) as u64, on_reserve: false, grow: 0, check: true, poison: true });
    }
    for c in &controls {
        ctx.eval();
        let ((out, out_main), seen) = watched(c, || {
            let a = cut::run(&mut u, Runner::Bytecode);
            let b = main.then(|| cut::run_main(&mut u, Runner::Bytecode, &inp));
            (a, b)
        });
        ctx.count("instructions_watched", seen.steps);
        ctx.count("collections_checked", seen.collections);
        ctx.count("collections_forced", seen.forced);
        ctx.count("reachable_objects_compared", seen.checked_objects);
        ctx.count("objects_moved", seen.moved_objects);
        ctx.class(&format!("{}/{}/{}", shape(&prog.p), seen.collections.min(2000) / 8, seen.max_reachable / 4));
        if let Some(f) = &seen.failure {
            ctx.fail("a collection changed reachable data", format!("{:?}\n{}", c, f), &prog.srcs);
            return;
        }
        if let Out::Panic(p) = &out {
            ctx.fail(&format!("bytecode crashed: {}", p), format!("{:?}: {}", c, p), &prog.srcs);
            return;
        }
        if let Some(MainOut::Panic(p)) = &out_main {
            ctx.fail(&format!("bytecode crashed in main: {}", p), format!("{:?}: {}", c, p), &prog.srcs);
            return;
        }
        let agree = match (&other, &out) {
            (Out::Trap(_), Out::Trap(_)) => true,
            (a, b) => a == b,
        };
        if !agree {
            let d = match (&other, &out) {
                (Out::Values(a), Out::Values(b)) => first_diff(a, b),
                (a, b) => format!("expected {}\n     got {}", shorten(&format!("{:?}", a), 300), shorten(&format!("{:?}", b), 300)),
            };
            ctx.fail("result depends on collections", format!("{:?}\n{}", c, d), &prog.srcs);
            return;
        }
        if let (Some(a), Some(b)) = (&other_main, &out_main) {
            if a != b && !matches!((a, b), (MainOut::Trap(_), MainOut::Trap(_))) {
                ctx.fail("output of main depends on collections", format!("{:?}\ninput {:?}\nexpected {:?}\n     got {:?}", c, inp, a, b), &prog.srcs);
                return;
            }
        }
        if seen.max_capacity > 0 {
            // the heap may grow to a multiple of what it holds after a collection
            let limit = 64 * seen.max_retained.max(1024) + 64 * (seen.forced + 16) * 16;
            if c.grow == 0 && seen.max_capacity > limit {
                ctx.fail("heap much larger than live data", format!("{:?}\ncapacity {} while at most {} bytes were kept", c, seen.max_capacity, seen.max_retained), &prog.srcs);
                return;
            }
        }
    }
    ctx.count("programs", 1);
    ctx.sample(|| json!({"main_module": shorten(&prog.srcs.last().unwrap().1, 400), "instructions": plain.steps}));
}

// ---- P22: loops run in bounded space ------------------------------------------------

struct Loop {
    kind: &'static str,
    /// Text of a program with `@N` in place of the number of steps.
    text: String,
    /// Live data grows with the number of steps, only the stack does not.
    grows: bool,
    optimized_only: bool,
}

fn int_step(r: &mut Rng, x: &str, d: usize) -> String {
    if d == 0 {
        return match r.below(3) {
            0 => r.below(100).to_string(),
            _ => x.to_owned(),
        };
    }
    match r.below(7) {
        0 => format!("(if {} % {} == {} then {} else {})", x, r.range(2, 5), r.below(3), int_step(r, x, d - 1), int_step(r, x, d - 1)),
        1 => format!("(let y{} = {}; y{} + {})", d, int_step(r, x, d - 1), d, x),
        2 => format!("(match P {} {} with | P a{d} b{d} -> a{d} + b{d} end)", int_step(r, x, d - 1), x, d = d),
        3 => format!("(ss.length (ss.concat \"ab\" (ii.toString {})))", int_step(r, x, d - 1)),
        4 => format!("((\\q{d} -> q{d} * 3 + {}) {})", x, int_step(r, x, d - 1), d = d),
        _ => format!("({} {} {})", int_step(r, x, d - 1), r.pick(&["+", "-", "*", "/", "%"]), int_step(r, x, d - 1)),
    }
}

/// A body every path of which ends in a call of `k`: the accumulators are `x`, an int,
/// and `t`, a string.
fn tail_body(r: &mut Rng, k: &str, ints: &[String], d: usize) -> String {
    if d == 0 || r.chance(20) {
        let step = int_step(r, "x", 1);
        let i = if ints.is_empty() { "1".to_owned() } else { r.pick(ints).clone() };
        let t = match r.below(3) {
            0 => "(ss.substring 0 5 (ss.concat \"a\" t))",
            1 => "\"zz\"",
            _ => "t",
        };
        return format!("{} ({} + {}) {}", k, step, i, t);
    }
    match r.below(5) {
        0 => format!("(if x % {} == {} then {} else {})", r.range(2, 5), r.below(2), tail_body(r, k, ints, d - 1), tail_body(r, k, ints, d - 1)),
        1 => {
            let v = format!("v{}", d);
            let e = int_step(r, "x", 2);
            let mut more = ints.to_vec();
            more.push(v.clone());
            format!("(let {} = {}; {})", v, e, tail_body(r, k, &more, d - 1))
        }
        2 => {
            let (a, b) = (format!("a{}", d), format!("b{}", d));
            let e = int_step(r, "x", 1);
            let mut more = ints.to_vec();
            more.push(a.clone());
            more.push(b.clone());
            format!("(match P {} x with | P {} {} -> {} end)", e, a, b, tail_body(r, k, &more, d - 1))
        }
        3 => {
            // a sum with branches of different sizes
            let n = r.range(2, 5);
            let pick = r.below(n);
            let arms: Vec<String> = (0..n).map(|i| {
                let vs: Vec<String> = (0..i).map(|j| format!("q{}_{}", d, j)).collect();
                let mut more = ints.to_vec();
                more.extend(vs.iter().cloned());
                format!("| Q{}{} -> {}", i, vs.iter().map(|v| format!(" {}", v)).collect::<String>(), tail_body(r, k, &more, d - 1))
            }).collect();
            let args: String = (0..pick).map(|_| format!(" {}", int_step(r, "x", 1))).collect();
            let rest: Vec<String> = (0..n).filter(|i| *i != pick).map(|i| format!("(Q{}{})", i, " x".repeat(i))).collect();
            let other = r.pick(&rest).clone();
            let arms = if n < 5 { format!("{} {}", arms.join(" "), (n..5).map(|i| format!("| Q{}{} -> {} x t", i, " _".repeat(i), k)).collect::<Vec<_>>().join(" ")) } else { arms.join(" ") };
            format!("(match (if x % {} == 0 then Q{}{} else {}) with {} end)", r.range(2, 4), pick, args, other, arms)
        }
        _ => format!("(if x < {} then {} else {})", r.below(300), tail_body(r, k, ints, d - 1), tail_body(r, k, ints, d - 1)),
    }
}

/// A recursive type of our own, with constructors of several sizes, and a fold over it.
fn own_fold(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    let mut ty = vec!["End".to_owned()];
    let mut arms = vec!["| End -> x + ss.length t".to_owned()];
    let mut chain = "s".to_owned();
    for i in 0..n {
        let size = r.range(1, 7);
        let at = r.below(size);
        let mut kinds = vec![];
        let mut names = vec![];
        let mut ints = vec![];
        let mut args = vec![];
        for j in 0..size {
            let v = format!("f{}_{}", i, j);
            if j == at {
                kinds.push("rec");
                args.push(format!("({})", chain));
            } else {
                match r.below(5) {
                    0 => {
                        kinds.push("string");
                        args.push("\"k\"".to_owned());
                    }
                    1 => {
                        kinds.push("rec");
                        args.push("End".to_owned());
                    }
                    _ => {
                        kinds.push("int");
                        ints.push(v.clone());
                        args.push(r.below(50).to_string());
                    }
                }
            }
            names.push(v);
        }
        let d = r.range(0, 3);
        let body = tail_body(r, &names[at], &ints, d);
        // names that are never used would only be warned about
        ty.push(format!("C{} {}", i, kinds.join(" ")));
        arms.push(format!("| C{} {} -> {}", i, names.join(" "), body));
        chain = format!("C{} {}", i, args.join(" "));
    }
    r.shuffle(&mut ty);
    r.shuffle(&mut arms);
    format!(
        "type Q = Q0 | Q1 int | Q2 int int | Q3 int int int | Q4 int int int int;\ntype Own = {};\nlet build : int -> Own = \\n -> ii.iterate n (\\s -> {}) End;\nlet run : Own -> int -> string -> int = \\fold n -> \\x -> \\t -> match n with {} end;\nexport let v : int = run (build @N) {} \"\";\n",
        ty.join(" | "), chain, arms.join(" "), r.below(50)
    )
}

fn make_loop(r: &mut Rng) -> Loop {
    let head = "import ii from \"std/int\";\nimport ss from \"std/string\";\nimport ll(List, Nil, Cons) from \"std/list\";\ntype P = P int int;\n";
    let d = r.range(1, 4);
    let s = int_step(r, "x", d);
    match r.below(13) {
        9..=12 => Loop { kind: "own fold over a type with several constructors", text: format!("{head}{}", own_fold(r)), grows: true, optimized_only: true },
        0 => Loop { kind: "iterate on a number", text: format!("{head}export let v : int = ii.iterate @N (\\x -> {s}) {};\n", r.below(50)), grows: false, optimized_only: false },
        1 => {
            let k = r.range(1, 90);
            let fs: Vec<String> = (0..k).map(|i| format!("f{}", i)).collect();
            let vals: Vec<String> = (0..k).map(|i| match r.below(4) {
                0 => format!("(f{} + {})", i, r.below(9)),
                1 => format!("(let x = f{}; {})", r.below(k), s),
                _ => format!("f{}", r.below(k)),
            }).collect();
            let ones: Vec<String> = (0..k).map(|i| i.to_string()).collect();
            Loop { kind: "iterate on a record", text: format!("{head}type S = S{};\nexport let v : int = match ii.iterate @N (\\s -> match s with | S {} -> S {} end) (S {}) with | S {} -> f{} end;\n", " int".repeat(k), fs.join(" "), vals.join(" "), ones.join(" "), fs.join(" "), r.below(k)), grows: false, optimized_only: false }
        }
        2 => {
            let keep = r.range(1, 40);
            let mid = match r.below(3) {
                0 => "(ss.concat s \"xyz\")".to_owned(),
                1 => format!("(ss.concat (ss.fromChar (ss.charAt {} s)) (ss.concat s s))", r.below(5)),
                _ => "(ss.concat (ii.toString (ss.length s * 12345)) s)".to_owned(),
            };
            Loop { kind: "iterate on a string", text: format!("{head}export let v : string = ii.iterate @N (\\s -> ss.substring {} {} {}) \"start\";\n", r.below(3), keep, mid), grows: false, optimized_only: false }
        }
        3 => Loop { kind: "accumulator over a list", text: format!("{head}let go : List int -> int -> int = \\fold l -> \\x -> match l with | Nil -> x | Cons e es -> es ({s} + e) end;\nexport let v : int = go (ll.repeat @N 3) {};\n", r.below(50)), grows: true, optimized_only: true },
        4 => Loop { kind: "two accumulators over a list", text: format!("{head}let go : List int -> int -> string -> int = \\fold l -> \\x -> \\t -> match l with | Nil -> x + ss.length t | Cons e es -> if e == 7 then es x t else es ({s} + e) (ss.substring 0 6 (ss.concat t \"ab\")) end;\nexport let v : int = go (ll.repeat @N 3) {} \"\";\n", r.below(50)), grows: true, optimized_only: true },
        5 => Loop { kind: "foldl", text: format!("{head}export let v : int = ll.foldl {} (\\x -> \\e -> {s} + e) (ll.repeat @N 3);\n", r.below(50)), grows: true, optimized_only: true },
        6 => Loop { kind: "iterate inside of iterate", text: format!("{head}export let v : int = ii.iterate @N (\\z -> ii.iterate {} (\\x -> {s} + z) z) 5;\n", r.range(1, 6)), grows: false, optimized_only: false },
        7 => {
            let inner = r.range(3, 60);
            Loop { kind: "building lists that are dropped", text: format!("{head}export let v : int = ii.iterate @N (\\x -> ll.sum (ll.map (\\e -> e + x % 10) (ll.repeat {inner} (x % 7)))) 5;\n"), grows: false, optimized_only: false }
        }
        _ => Loop { kind: "own fold over numbers of steps", text: format!("{head}type Nat = Z | S rec;\nlet nat : int -> Nat = \\n -> ii.iterate n S Z;\nlet run : Nat -> int -> int = \\fold n -> \\x -> match n with | Z -> x | S k -> k {} end;\nexport let v : int = run (nat @N) {};\n", int_step(r, "x", d), r.below(50)), grows: true, optimized_only: true },
    }
}

pub fn p22(ctx: &mut Ctx) {
    let mut r = ctx.rng("P22");
    let l = make_loop(&mut r);
    let big = if ctx.tier == Tier::Thorough { 20_000 } else { 5_000 };
    let small = 600;
    let optimize = l.optimized_only || r.chance(50);
    let mut seen = vec![];
    let mut srcs = vec![];
    for n in [small, big, big + r.range(1, 999)] {
        srcs = vec![("main".to_owned(), l.text.replace("@N", &n.to_string()))];
        let Some(mut u) = accepted_with(ctx, &srcs, cut::Options { verify: false, optimize }) else {
            if std::env::var("TV_DEBUG").is_ok() {
                eprintln!("rejected {}", srcs[0].1);
            }
            return;
        };
        ctx.eval();
        let ((out, o), bytes) = meter::peak(|| watched(&Control::default(), || cut::run(&mut u, Runner::Bytecode)));
        if let Out::Panic(p) = &out {
            ctx.fail(&format!("loop crashed: {}", p), p.clone(), &srcs);
            return;
        }
        ctx.count("instructions", o.steps);
        ctx.count("loop_steps", n as u64);
        seen.push((n, o.max_stack, bytes));
    }
    let (a, b) = (&seen[0], seen[1..].iter().max_by_key(|x| x.2).unwrap());
    if std::env::var("TV_DEBUG").is_ok() {
        eprintln!("{} {} {:?}", l.kind, optimize, seen);
    }
    ctx.class(&format!("{} {} {} {}", l.kind, optimize, a.1, a.2 / 4096));
    ctx.count(l.kind, 1);
    if HOOKED && seen.iter().any(|x| x.1 > a.1 + 64) {
        ctx.fail(&format!("stack grows with the number of steps: {}", l.kind), format!("(steps, values on the stack, bytes): {:?}", seen), &srcs);
        return;
    }
    if !l.grows && b.2 > a.2 * 2 + 128 * 1024 {
        ctx.fail(&format!("memory grows with the number of steps: {}", l.kind), format!("(steps, values on the stack, bytes): {:?}", seen), &srcs);
        return;
    }
    if l.grows && b.2 > (if l.kind.starts_with("own fold over a type") { 8000 } else { 400 }) * b.0 as u64 + (1 << 20) {
        ctx.fail(&format!("memory out of proportion to the data: {}", l.kind), format!("(steps, values on the stack, bytes): {:?}", seen), &srcs);
        return;
    }
    ctx.sample(|| json!({"program": l.text, "steps_stack_bytes": format!("{:?}", seen)}));
}

// ---- P24: primitive operations ---------------------------------------------------------

const INTS: [u64; 40] = [
    0, 1, 2, 3, 5, 7, 9, 10, 11, 31, 32, 47, 48, 57, 58, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, 2147483647, 2147483648,
    4294967295, 4294967296, 4294967297, 9007199254740993, 9223372036854775807, 9223372036854775808, 9223372036854775809, 10000000000000000000,
    18446744073709551614, 18446744073709551615,
];

pub fn int(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 | 1 => *r.pick(&INTS),
        2 => r.next() >> r.below(64),
        3 => {
            let x = 1u64 << r.below(64);
            match r.below(3) {
                0 => x,
                1 => x.wrapping_sub(1),
                _ => x.wrapping_add(r.below(3) as u64),
            }
        }
        _ => 10u64.pow(r.below(20) as u32).wrapping_sub(r.below(3) as u64),
    }
}

pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(7, 9),
        3 => r.range(15, 33),
        _ => r.below(12),
    };
    (0..n).map(|_| match r.below(6) {
        0 => *r.pick(&[0u8, 9, 10, 13, 31, 32, 34, 92, 126, 127, 128, 255]),
        1 => r.below(256) as u8,
        _ => r.range(32, 126) as u8,
    }).collect()
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for &c in b {
        match c {
            b'\n' => s += "\\n",
            b'\r' => s += "\\r",
            32..=126 => s.push(c as char),
            _ => s += &format!("\\x{:02x}", c),
        }
    }
    s + "\""
}

/// An expression for the number, as a literal or in a way that the optimizer
/// does not see through.
fn int_expr(r: &mut Rng, x: u64) -> String {
    match r.below(5) {
        0 => format!("(hide {})", x),
        1 => format!("(ii.iterate 1 (\\q -> q) {})", x),
        2 => format!("(match B {} 1 with | B q _ -> q end)", x),
        _ => x.to_string(),
    }
}

pub fn str_expr(r: &mut Rng, b: &[u8]) -> String {
    let plain = b.iter().all(|&c| (32..=126).contains(&c) && c != b'"' && c != b'\\');
    if plain && r.chance(70) {
        let lit = format!("\"{}\"", String::from_utf8_lossy(b));
        return match r.below(3) {
            0 => format!("(hides {})", lit),
            _ => lit,
        };
    }
    if b.len() <= 1 {
        if b.is_empty() {
            return "\"\"".into();
        }
        let c = b[0] as u64 + 256 * r.below(3) as u64;
        return format!("(ss.fromChar {})", int_expr(r, c));
    }
    let k = r.range(0, b.len());
    let (x, y) = b.split_at(if k == 0 || k == b.len() { b.len() / 2 } else { k });
    format!("(ss.concat {} {})", str_expr(r, x), str_expr(r, y))
}

pub fn substring(start: u64, len: u64, s: &[u8]) -> Vec<u8> {
    let n = s.len() as u128;
    let a = (start as u128).min(n);
    let b = (start as u128 + len as u128).min(n).max(a);
    s[a as usize..b as usize].to_vec()
}

fn primitive(r: &mut Rng) -> (String, String, String) {
    let (a, b) = (int(r), int(r));
    let b = if r.chance(10) { a } else { b };
    match r.below(14) {
        0..=5 => {
            let (op, v) = match r.below(5) {
                0 => ("+", a.wrapping_add(b)),
                1 => ("-", a.wrapping_sub(b)),
                2 => ("*", a.wrapping_mul(b)),
                3 => ("/", if b == 0 { 0 } else { a / b }),
                _ => ("%", if b == 0 { a } else { a % b }),
            };
            (op.to_owned(), format!("{} {} {}", int_expr(r, a), op, int_expr(r, b)), v.to_string())
        }
        6 | 7 => {
            let (op, v) = match r.below(6) {
                0 => ("<", a < b),
                1 => ("<=", a <= b),
                2 => (">", a > b),
                3 => (">=", a >= b),
                4 => ("==", a == b),
                _ => ("!=", a != b),
            };
            let e = format!("{} {} {}", int_expr(r, a), op, int_expr(r, b));
            if r.chance(30) {
                (format!("if {}", op), format!("if {} then 1 else 2", e), if v { "1" } else { "2" }.to_owned())
            } else {
                (op.to_owned(), e, v.to_string())
            }
        }
        8 => {
            let s = bytes(r);
            ("length".to_owned(), format!("ss.length {}", str_expr(r, &s)), s.len().to_string())
        }
        9 => {
            let s = bytes(r);
            let i = if r.chance(70) { r.below(s.len() + 2) as u64 } else { a };
            ("charAt".to_owned(), format!("ss.charAt {} {}", int_expr(r, i), str_expr(r, &s)), s.get(i as usize).copied().filter(|_| i < s.len() as u64).unwrap_or(0).to_string())
        }
        10 | 11 => {
            let s = bytes(r);
            let i = if r.chance(60) { r.below(s.len() + 2) as u64 } else { a };
            let n = if r.chance(60) { r.below(s.len() + 2) as u64 } else { b };
            ("substring".to_owned(), format!("ss.substring {} {} {}", int_expr(r, i), int_expr(r, n), str_expr(r, &s)), show(&substring(i, n, &s)))
        }
        12 => {
            let (s, t) = (bytes(r), bytes(r));
            let mut v = s.clone();
            v.extend(&t);
            ("concat".to_owned(), format!("ss.concat {} {}", str_expr(r, &s), str_expr(r, &t)), show(&v))
        }
        _ => match r.below(2) {
            0 => ("fromChar".to_owned(), format!("ss.fromChar {}", int_expr(r, a)), show(&[a as u8])),
            _ => ("toString".to_owned(), format!("ii.toString {}", int_expr(r, a)), show(a.to_string().as_bytes())),
        },
    }
}

pub fn p24(ctx: &mut Ctx) {
    let mut r = ctx.rng("P24");
    let mut text = String::from("import ii from \"std/int\";\nimport ss from \"std/string\";\ntype B = B int int;\nlet hide : int -> int = \\x -> ii.iterate 1 (\\y -> y) x;\nlet hides : string -> string = \\x -> ii.iterate 1 (\\y -> y) x;\n");
    let mut expected = String::new();
    let n = r.range(8, 30);
    let mut kinds = vec![];
    for k in 0..n {
        let (kind, e, v) = primitive(&mut r);
        text += &format!("export let v{} = {};\n", k, e);
        expected += &format!("v{} = {}\n", k, v);
        kinds.push(kind);
    }
    // the same operations on what is only known when the program runs
    let (at, len, sep) = (r.below(12) as u64, if r.chance(80) { r.below(12) as u64 } else { int(&mut r) }, int(&mut r));
    text += &format!("export let main : string -> string = \\s -> ss.concat (ss.substring {} {} s) (ss.concat (ss.fromChar (ss.charAt {} s + {})) (ss.concat (ii.toString (ss.length s * {})) s));\n", at, len, at, sep, sep);
    expected += "main = \\_ -> _\n";
    let srcs = vec![("main".to_owned(), text)];
    for optimize in [false, true] {
        let Some(mut u) = accepted_with(ctx, &srcs, cut::Options { verify: false, optimize }) else {
            ctx.fail("rejected", String::new(), &srcs);
            return;
        };
        for rn in RUNNERS {
            let out = cut::run(&mut u, rn);
            match &out {
                Out::Values(v) if *v == expected => {}
                Out::Values(v) => {
                    let k = expected.lines().zip(v.lines()).take_while(|(a, b)| a == b).count();
                    ctx.fail(&format!("wrong result of {} ({})", kinds.get(k).map(|x| x.as_str()).unwrap_or("?"), rn), format!("optimize {}\n{}\n{}", optimize, srcs[0].1.lines().nth(5 + k).unwrap_or(""), first_diff(&expected, v)), &srcs);
                    return;
                }
                o => {
                    ctx.fail(&format!("primitives failed ({})", rn), format!("optimize {}: {:?}", optimize, o), &srcs);
                    return;
                }
            }
            for _ in 0..n {
                ctx.eval();
            }
            for _ in 0..3 {
                let i = bytes(&mut r);
                let mut want = substring(at, len, &i);
                want.push((i.get(at as usize).copied().unwrap_or(0) as u64).wrapping_add(sep) as u8);
                want.extend((i.len() as u64).wrapping_mul(sep).to_string().bytes());
                want.extend(&i);
                ctx.eval();
                match cut::run_main(&mut u, rn, &i) {
                    MainOut::Bytes(b) if b == want => {}
                    o => {
                        ctx.fail(&format!("wrong bytes from main ({})", rn), format!("optimize {} input {:?}\nexpected {:?}\n     got {:?}", optimize, i, want, o), &srcs);
                        return;
                    }
                }
            }
        }
    }
    for k in &kinds {
        ctx.count(&format!("operation {}", k), 1);
    }
    for l in expected.lines() {
        ctx.class(l.split(" = ").nth(1).unwrap_or(""));
    }
    let _ = guard(|| ());
    ctx.sample(|| json!({"program": shorten(&srcs[0].1, 600), "values": shorten(&expected, 400)}));
}
