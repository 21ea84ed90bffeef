//! P23: programs as machine code. The code generator follows the calling
//! convention of 64 bit Windows; run.sh builds a copy of it in which that is
//! named, and runs it in processes of their own.
use crate::backend::{watched, Control, HOOKED};
use crate::cut;
use crate::driver::{Ctx, Tier};
use crate::gen::Cfg;
use crate::irx::{self, Def, E};
use crate::paths::verif;
use crate::print::MILD;
use crate::rng::Rng;
use crate::ub::{self, decode};
use crate::util::{accepted_with, shorten, Files};
use serde_json::json;
use std::io::{BufRead, BufReader, Read};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

struct Item {
    files: Files,
    kind: String,
    line: String,
    expect: String,
    steps: u64,
}

/// What the other interpreters make of the same IR.
fn expected(code: &str) -> Option<(String, u64)> {
    let read = || decode::program(&mut decode::Words(code.split_ascii_whitespace()));
    let (result, plain) = watched(&Control::default(), || {
        cut::guard(|| {
            let (program, exprs) = read();
            match ticc_eval::bytecode::eval(&program, &exprs) {
                Ok(values) => format!("{:?}", values),
                Err(trap) => format!("trap {}", trap.message),
            }
        })
    });
    Some((result.ok()?.replace('\n', "\\n"), plain.steps))
}

fn items(ctx: &mut Ctx, r: &mut Rng) -> Vec<Item> {
    let prog = match r.below(10) {
        0..=1 => {
            let Some(p) = crate::families::read(&ub::records(r)) else { return vec![] };
            let info = crate::refcheck::check(&p);
            if !info.errors.is_empty() {
                return vec![];
            }
            ctx.count("family: records", 1);
            let (printed, srcs) = crate::util::print_all(&p, r, MILD);
            crate::util::Prog { p, info, printed, srcs }
        }
        2 if r.chance(50) => match crate::families::prog_of(r, 8, MILD) {
            Some(p) => {
                ctx.count("family: wide", 1);
                p
            }
            None => return vec![],
        },
        2..=5 => {
            let cfg = if r.chance(50) { Cfg::single() } else { crate::props_sem::run_cfg(r) };
            match crate::props_sem::subject(ctx, r, &cfg, MILD, 0) {
                Some(p) => p,
                None => return vec![],
            }
        }
        _ => match crate::props_sem::subject(ctx, r, &Cfg::single(), MILD, 100) {
            Some(p) => p,
            None => return vec![],
        },
    };
    let optimize = r.chance(50);
    let Some(mut u) = accepted_with(ctx, &prog.srcs, cut::Options { verify: false, optimize }) else { return vec![] };
    let text = u.emit_ir();
    let Ok(defs) = irx::parse(&text) else {
        ctx.count("ir_not_readable", 1);
        return vec![];
    };
    if !matches!(irx::Machine::new(100_000).run(&defs), Ok(_) | Err(irx::Stop::Trap(_))) {
        ctx.count("too_long", 1);
        return vec![];
    }
    let mut out = vec![];
    let mut add = |ctx: &mut Ctx, defs: &[Def], kind: String| {
        let (code, size) = ub::encode(defs);
        if size > 60_000 {
            ctx.count("too_large", 1);
            return;
        }
        let Some((expect, steps)) = expected(&code) else {
            ctx.count("crashes_in_the_bytecode_interpreter", 1);
            return;
        };
        if HOOKED && steps > 2_000_000 {
            ctx.count("too_long", 1);
            return;
        }
        out.push(Item { files: prog.srcs.clone(), kind, line: format!("{}\n", code), expect, steps });
    };
    add(ctx, &defs, format!("values, optimize {}", optimize));
    if crate::props_sem::has_main(&prog) {
        if let Some(main) = defs.iter().rev().find(|d| d.export.as_deref() == Some("main")) {
            let input = crate::props_sem::input(r);
            let call = Def {
                export: Some("result".to_owned()),
                name: "the result".to_owned(),
                ty: main.ty.clone(),
                value: E::Call(Box::new(E::Name(main.name.clone())), vec![E::Str(input.clone())]),
            };
            let mut all: Vec<Def> = defs.iter().map(|d| Def { export: None, ..d.clone() }).collect();
            all.push(call);
            if matches!(irx::Machine::new(100_000).run(&all), Ok(_) | Err(irx::Stop::Trap(_))) {
                add(ctx, &all, format!("main on {:?}, optimize {}", String::from_utf8_lossy(&input), optimize));
            }
        }
    }
    out
}

pub fn p23(ctx: &mut Ctx) {
    let mut r = ctx.rng("P23");
    let exe = verif().join("target/jit/release/tv-jit");
    if !exe.exists() {
        ctx.count("not_built", 1);
        return;
    }
    let want = if ctx.tier == Tier::Thorough { 60 } else { 30 };
    let mut list = vec![];
    for _ in 0..want * 10 {
        if list.len() < want {
            list.extend(items(ctx, &mut r));
        }
    }
    let dir = std::env::temp_dir().join(format!("tv-jit-{}-{}", std::process::id(), ctx.case));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("cases");
    std::fs::write(&file, list.iter().map(|i| i.line.as_str()).collect::<String>()).unwrap();
    let mut command = Command::new(&exe);
    command.arg(&file).current_dir(&dir).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        command.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 8 << 30, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            Ok(())
        });
    }
    let Ok(mut child) = command.spawn() else {
        ctx.count("not_started", 1);
        return;
    };
    let mut err = child.stderr.take().unwrap();
    let errors = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = err.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let mut current = None;
    let mut ended = false;
    for line in BufReader::new(child.stdout.take().unwrap()).split(b'\n') {
        let Ok(line) = line else { break };
        let line = String::from_utf8_lossy(&line).into_owned();
        let words: Vec<&str> = line.splitn(4, ' ').collect();
        match words[0] {
            "begin" => current = words[1].parse::<usize>().ok(),
            "done" => {
                let i: usize = words[1].parse().unwrap_or(0);
                let got = words.get(3).copied().unwrap_or("");
                let item = &list[i];
                current = None;
                if got.contains("only supported on") {
                    ctx.count("refused_here", 1);
                    continue;
                }
                ctx.eval();
                ctx.count("guarded_blocks", words[2].parse().unwrap_or(0));
                ctx.count("instructions_of_the_bytecode_interpreter", item.steps);
                ctx.count(if got.starts_with("trap") { "traps" } else { "values" }, 1);
                ctx.class(&format!("{} {} {}", item.steps, words[2], got.len()));
                if got != item.expect {
                    let at = got.bytes().zip(item.expect.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(40);
                    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..]).into_owned();
                    ctx.fail(
                        "machine code gives another result",
                        format!("{}\nexpected {}\ngot      {}", item.kind, shorten(&cut(&item.expect), 400), shorten(&cut(got), 400)),
                        &item.files,
                    );
                }
            }
            "end" => ended = true,
            _ => {}
        }
    }
    let status = child.wait();
    let errors = errors.join().unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    if ended {
        ctx.sample(|| json!({"programs": list.len(), "first": list.first().map(|i| shorten(&i.files.last().unwrap().1, 300))}));
    } else if let Some(i) = current {
        let key = errors.lines().find(|l| l.contains("bad memory") || l.contains("does not end")).or(errors.lines().find(|l| !l.trim().is_empty() && !l.contains("panicked at"))).unwrap_or("no message").to_owned();
        ctx.fail(&format!("machine code crashed: {}", key), format!("{} {:?}\n{}", list[i].kind, status, shorten(&errors, 1500)), &list[i].files);
    } else {
        ctx.count("gave_up", 1);
        if std::env::var("TV_DEBUG").is_ok() {
            eprintln!("{:?} {}", status, shorten(&errors, 3000));
        }
    }
}
