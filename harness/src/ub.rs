//! P33: the bytecode interpreter under Miri, an interpreter of Rust that
//! watches every memory access for undefined behaviour.
use crate::backend::{watched, Control, HOOKED};
use crate::cut;
use crate::driver::{Ctx, Tier};
use crate::gen::Cfg;
use crate::paths::verif;
use crate::print::MILD;
use crate::irx::{self, Def, E};
use crate::rng::Rng;
use crate::util::{accepted_with, shorten, Files};
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Read};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

#[path = "../../miri/src/decode.rs"]
pub mod decode;

struct Item {
    files: Files,
    control: Control,
    line: String,
}

/// Writes IR in the form that decode.rs reads.
#[derive(Default)]
struct Encoder {
    names: HashMap<String, usize>,
    out: String,
    words: usize,
}

impl Encoder {
    fn w(&mut self, s: &str) {
        self.out += s;
        self.out.push(' ');
        self.words += 1;
    }

    fn name(&mut self, s: &str) {
        let n = self.names.len();
        let n = *self.names.entry(s.to_owned()).or_insert(n);
        self.w(&n.to_string());
    }

    fn bytes(&mut self, b: &[u8]) {
        let hex: String = b.iter().map(|b| format!("{:02x}", b)).collect();
        self.w(&format!("x{}", hex));
    }

    fn exprs(&mut self, es: &[E]) {
        self.w(&es.len().to_string());
        es.iter().for_each(|e| self.expr(e));
    }

    fn expr(&mut self, e: &E) {
        match e {
            E::Bool(b) => self.w(if *b { "true" } else { "false" }),
            E::Int(x) => self.w(&format!("int {}", x)),
            E::Str(s) => {
                self.w("str");
                self.bytes(s);
            }
            E::Name(n) => {
                self.w("name");
                self.name(n);
            }
            E::Call(f, args) => {
                self.w("call");
                self.expr(f);
                self.exprs(args);
            }
            E::If(a, b, c) => {
                self.w("if");
                self.expr(a);
                self.expr(b);
                self.expr(c);
            }
            E::Op(a, op, b) => {
                self.w("op");
                self.w(op);
                self.expr(a);
                self.expr(b);
            }
            E::Intr(i, args) => {
                self.w("intr");
                self.w(i);
                self.exprs(args);
            }
            E::Lam(params, body) => {
                self.w("lam");
                self.w(&params.len().to_string());
                params.iter().for_each(|p| self.name(&p.0));
                self.expr(body);
            }
            E::Match(on, branches) => {
                self.w("match");
                self.expr(on);
                self.w(&branches.len().to_string());
                for (ctor, names, value) in branches {
                    self.name(&format!("ctor {}", ctor));
                    self.w(&names.len().to_string());
                    names.iter().for_each(|n| self.name(n));
                    self.expr(value);
                }
            }
            E::Cons(ctor, _, args) => {
                self.w("cons");
                self.name(&format!("ctor {}", ctor));
                self.exprs(args);
            }
            E::Let(n, a, b) => {
                self.w("let");
                self.name(n);
                self.expr(a);
                self.expr(b);
            }
            E::LetRec(n, _, a, b) => {
                self.w("rec");
                self.name(n);
                self.expr(a);
                self.expr(b);
            }
            E::Pi(_, e) => {
                self.w("pi");
                self.expr(e);
            }
            E::PiApply(e, _) => {
                self.w("apply");
                self.expr(e);
            }
            E::Trap(m, _) => {
                self.w("trap");
                self.bytes(m.as_bytes());
            }
        }
    }
}

fn mentions(e: &E, f: &mut impl FnMut(&str)) {
    match e {
        E::Name(n) => f(n),
        E::Bool(_) | E::Int(_) | E::Str(_) | E::Trap(..) => {}
        E::Call(g, args) => {
            mentions(g, f);
            args.iter().for_each(|a| mentions(a, f));
        }
        E::If(a, b, c) => [a, b, c].into_iter().for_each(|e| mentions(e, f)),
        E::Op(a, _, b) | E::Let(_, a, b) | E::LetRec(_, _, a, b) => [a, b].into_iter().for_each(|e| mentions(e, f)),
        E::Intr(_, args) | E::Cons(_, _, args) => args.iter().for_each(|a| mentions(a, f)),
        E::Lam(_, e) | E::Pi(_, e) | E::PiApply(e, _) => mentions(e, f),
        E::Match(on, branches) => {
            mentions(on, f);
            branches.iter().for_each(|b| mentions(&b.2, f));
        }
    }
}

/// The text of what the exports need, and its size in words.
pub fn encode(defs: &[Def]) -> (String, usize) {
    let mut used: HashSet<String> = defs.iter().filter(|d| d.export.is_some()).map(|d| d.name.clone()).collect();
    let mut kept = vec![];
    for d in defs.iter().rev() {
        if used.contains(&d.name) {
            mentions(&d.value, &mut |n| {
                used.insert(n.to_owned());
            });
            kept.push(d);
        }
    }
    kept.reverse();
    let mut e = Encoder::default();
    e.w(&kept.len().to_string());
    for d in &kept {
        e.name(&d.name);
        e.expr(&d.value);
    }
    let exports: Vec<&&Def> = kept.iter().filter(|d| d.export.is_some()).collect();
    e.w(&exports.len().to_string());
    for d in exports {
        e.name(&d.name);
    }
    (format!("{} {}", e.names.len(), e.out), e.words)
}

/// Objects of all sizes, as the collector has special cases for large ones.
pub fn records(r: &mut Rng) -> String {
    let k = *r.pick(&[1, 2, 9, 10, 30, 63, 64, 65, 66, 90, 127, 128, 129, 130, 193]);
    let mut ty = String::new();
    let mut vals = String::new();
    let mut names = String::new();
    let mut ints = vec![];
    let mut strings = vec![];
    for i in 0..k {
        let string = r.chance(40) || i == 64 && r.chance(70);
        ty += if string { " string" } else { " int" };
        match (string, r.chance(12)) {
            (true, true) => vals += &format!(" (s.concat \"{}\" x)", "a".repeat(r.below(12))),
            (true, false) => vals += " x",
            (false, true) => vals += &format!(" (n + {})", i),
            (false, false) => vals += " n",
        }
        if string {
            strings.push(i);
        } else {
            ints.push(i);
        }
        names += &format!(" f{}", i);
    }
    let sum = ints.iter().fold("n".to_owned(), |a, i| if r.chance(12) { format!("{} + f{}", a, i) } else { a });
    let cat = strings.iter().fold("\"\"".to_owned(), |a, i| if r.chance(8) || *i > 63 && r.chance(25) { format!("s.concat ({}) f{}", a, i) } else { a });
    format!(
        "import s from \"std/string\";\ntype R = R{ty};\nlet make : int -> string -> R = \\n -> \\x -> R{vals};\nlet sum : R -> int -> int = \\r -> \\n -> match r with | R{names} -> {sum} end;\nlet cat : R -> string = \\r -> match r with | R{names} -> {cat} end;\nlet a : R = make {} \"q\";\nlet b : R = make (sum a 1) (cat a);\nexport let x : string = s.concat (cat b) (s.fromChar 65);\nexport let y : int = sum (make 1 x) 2;\nexport let z : R = b;\n",
        r.below(9)
    )
}

fn item(ctx: &mut Ctx, r: &mut Rng) -> Option<Item> {
    let prog = match r.below(10) {
        0..=2 => {
            let p = crate::families::read(&records(r))?;
            let info = crate::refcheck::check(&p);
            if let Some(e) = info.errors.first() {
                if std::env::var("TV_DEBUG").is_ok() {
                    eprintln!("not valid: {:?}", e);
                }
                ctx.count("generated_programs_not_valid", 1);
                return None;
            }
            ctx.count("family: records", 1);
            let (printed, srcs) = crate::util::print_all(&p, r, MILD);
            crate::util::Prog { p, info, printed, srcs }
        }
        3..=6 => crate::props_sem::subject(ctx, r, &Cfg::single(), MILD, 0)?,
        _ => crate::props_sem::subject(ctx, r, &Cfg::single(), MILD, 100)?,
    };
    let optimize = r.chance(30);
    let mut u = accepted_with(ctx, &prog.srcs, cut::Options { verify: false, optimize })?;
    let text = u.emit_ir();
    let Ok(defs) = irx::parse(&text) else {
        ctx.count("ir_not_readable", 1);
        return None;
    };
    let (code, size) = encode(&defs);
    let (words, steps) = if ctx.tier == Tier::Thorough { (3_000, 2_000) } else { (1_200, 700) };
    if size > words {
        ctx.count("too_large_for_miri", 1);
        return None;
    }
    if !matches!(irx::Machine::new(20_000).run(&defs), Ok(_) | Err(irx::Stop::Trap(_))) {
        ctx.count("too_long_for_miri", 1);
        return None;
    }
    let read = || decode::program(&mut decode::Words(code.split_ascii_whitespace()));
    let (result, plain) = watched(&Control::default(), || {
        cut::guard(|| {
            let (program, exprs) = read();
            decode::digest(&ticc_eval::bytecode::eval(&program, &exprs))
        })
    });
    let Ok(expect) = result else {
        ctx.count("crashes_natively", 1);
        return None;
    };
    if HOOKED && plain.steps > steps {
        ctx.count("too_long_for_miri", 1);
        return None;
    }
    let every = (plain.steps / *r.pick(&[2, 4, 12])).max(1);
    let control = Control { every, on_reserve: plain.steps < 300 && r.chance(10), grow: *r.pick(&[0, 0, 7, 20]), check: false, poison: false };
    let line = format!("{} {} {} {} {}\n", control.every, u8::from(control.on_reserve), control.grow, code, expect);
    Some(Item { files: prog.srcs, control, line })
}

pub fn p33(ctx: &mut Ctx) {
    let mut r = ctx.rng("P33");
    let mut items = vec![];
    let secs = if ctx.tier == Tier::Thorough { 240 } else { 28 };
    let want = if ctx.tier == Tier::Thorough { 1000 } else { 150 };
    for _ in 0..want * 20 {
        if items.len() < want {
            items.extend(item(ctx, &mut r));
        }
    }
    let dir = std::env::temp_dir().join(format!("tv-miri-{}-{}", std::process::id(), ctx.case));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("cases");
    std::fs::write(&file, items.iter().map(|i| i.line.as_str()).collect::<String>()).unwrap();
    // which pointers may be used while others exist is checked by the rules of
    // tree borrows in a third of the runs, as that takes far longer
    let trees = ctx.case % 3 == 2;
    let mut flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-symbolic-alignment-check".to_owned();
    flags += if trees { " -Zmiri-tree-borrows" } else { " -Zmiri-disable-stacked-borrows" };
    let mut command = Command::new("cargo");
    command
        .args(["+nightly", "miri", "run", "--quiet", "--offline", "--manifest-path"])
        .arg(verif().join("miri/Cargo.toml"))
        .arg("--target-dir")
        .arg(verif().join("target/miri"))
        .arg("--")
        .arg(&file)
        .arg(secs.to_string())
        .env("MIRIFLAGS", flags)
        .env("RUSTFLAGS", if HOOKED { "--cfg tic_verif -Awarnings" } else { "-Awarnings" })
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    unsafe {
        command.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            Ok(())
        });
    }
    let mut child = match command.spawn() {
        Ok(c) => c,
        Err(e) => {
            ctx.count("miri_not_started", 1);
            eprintln!("{}", e);
            return;
        }
    };
    let mut err = child.stderr.take().unwrap();
    let errors = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = err.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let mut current = None;
    let mut ended = false;
    for line in BufReader::new(child.stdout.take().unwrap()).lines() {
        let Ok(line) = line else { break };
        let words: Vec<&str> = line.split(' ').collect();
        let num = |i: usize| words.get(i).and_then(|w| w.parse::<u64>().ok()).unwrap_or(0);
        match words[0] {
            "begin" => current = Some(num(1) as usize),
            "done" | "differs" => {
                let i = num(1) as usize;
                ctx.eval();
                ctx.count("instructions_watched", num(2));
                ctx.count("collections_forced", num(3));
                ctx.count(if trees { "programs_with_tree_borrows" } else { "programs_without_alias_model" }, 1);
                ctx.class(&format!("{} {} {}", num(2), num(3), items[i].line.len()));
                if words[0] == "differs" {
                    ctx.fail("result differs under miri", format!("case {} of the run, {:?}", i, items[i].control), &items[i].files);
                }
                current = None;
            }
            "end" => ended = true,
            _ => {}
        }
    }
    let status = child.wait();
    let errors = errors.join().unwrap_or_default();
    if std::env::var("TV_KEEP").is_err() { let _ = std::fs::remove_dir_all(&dir); }
    let none = vec![];
    let (files, control) = match current {
        Some(i) => (&items[i].files, format!("{:?}", items[i].control)),
        None => (&none, String::new()),
    };
    if let Some(at) = errors.find("Undefined Behavior") {
        let line = errors[at..].lines().next().unwrap_or("").to_owned();
        ctx.fail(&format!("undefined behaviour: {}", line), format!("{}\n{}", control, shorten(&errors[errors[..at].rfind('\n').map_or(0, |x| x + 1)..], 3000)), files);
    } else if errors.contains("panicked at") && current.is_some() {
        ctx.fail("crash under miri", format!("{}\n{}", control, shorten(&errors, 2000)), files);
    } else if !ended {
        ctx.count("miri_gave_up", 1);
        if std::env::var("TV_DEBUG").is_ok() {
            eprintln!("{:?} {}", status, shorten(&errors, 3000));
        }
    }
    ctx.sample(|| json!({"programs": items.len(), "tree_borrows": trees, "first": items.first().map(|i| shorten(&i.files.last().unwrap().1, 300))}));
}
