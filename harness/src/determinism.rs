//! P04: answers are a function of the texts alone.
use crate::cut::{self, guard, CompilationUnit, CompleteUnit, ImportError, ModuleResolver, Options, RUNNERS};
use crate::driver::Ctx;
use crate::print::FANCY;
use crate::props_front::{front_cfg, lex};
use crate::props_sem::{has_main, input, run_cfg, subject};
use crate::refeval::Eval;
use crate::rng::Rng;
use crate::util::*;
use crate::{mutate, stdsig};
use serde_json::json;
use std::collections::HashMap;
use std::io::Read;
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

/// Finds modules, after a while.
struct Slow {
    map: HashMap<String, CompleteUnit>,
    delay: u64,
}

impl ModuleResolver for Slow {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        if self.delay > 0 {
            std::thread::sleep(Duration::from_micros(self.delay));
        }
        self.map.get(name).cloned().ok_or(ImportError::DoesNotExist)
    }
}

struct Work {
    srcs: Files,
    spots: Vec<usize>,
    run: bool,
    main: bool,
    input: Vec<u8>,
    shape: String,
}

fn work(ctx: &mut Ctx, r: &mut Rng) -> Option<Work> {
    let input = input(r);
    let (srcs, run, main, sh) = if r.chance(60) {
        let cfg = run_cfg(r);
        let prog = subject(ctx, r, &cfg, FANCY, 20)?;
        let mut ev = Eval::new(&prog.p, &prog.info, 40_000);
        let run = ev.run().is_ok();
        let main = run && has_main(&prog) && ev.run_main(&input).is_ok();
        (prog.srcs.clone(), run, main, shape(&prog.p))
    } else {
        let cfg = front_cfg(r);
        let mut p = crate::gen::project(r, &cfg);
        for _ in 0..r.below(4) {
            mutate::mutate(&mut p, r);
        }
        mutate::dedup_ids(&mut p);
        p.fix_parens();
        let (_, mut srcs) = print_all(&p, r, FANCY);
        if r.chance(20) {
            let k = r.below(srcs.len());
            srcs[k].1 = crate::textgen::damage(&srcs[k].1, r);
        }
        (srcs, false, false, shape(&p))
    };
    let text = &srcs.last().unwrap().1;
    let all: Vec<usize> = lex(text).iter().flat_map(|t| [t.1, t.2, (t.1 + t.2) / 2]).filter(|p| text.is_char_boundary(*p)).collect();
    let spots = if all.is_empty() { vec![0] } else { (0..r.range(2, 12)).map(|_| *r.pick(&all)).collect() };
    Some(Work { srcs, spots, run, main, input, shape: sh })
}

type Answers = Vec<(String, String)>;

fn modules(w: &Work, delay: u64, out: &mut Answers) -> Arc<Slow> {
    let mut map = HashMap::new();
    for (path, text) in &w.srcs[..w.srcs.len() - 1] {
        let mut u = CompilationUnit::new(text, Options::default(), Arc::new(Slow { map: map.clone(), delay }));
        out.push((format!("diagnostics of {}", path), format!("{:?}", cut::diags(&mut u))));
        map.insert(path.clone(), u.complete());
    }
    Arc::new(Slow { map, delay })
}

/// Everything that can be asked.  Modules that are already there are used.
fn answers(w: &Work, ready: Option<Arc<Slow>>, delay: u64, verify: bool) -> Answers {
    let mut out = vec![];
    let r = guard(|| {
        let lib = match ready {
            Some(l) => l,
            None => modules(w, delay, &mut out),
        };
        let text = &w.srcs.last().unwrap().1;
        let mut u = CompilationUnit::new(text, Options { verify, optimize: false }, lib.clone());
        let ds = cut::diags(&mut u);
        let clean = ds.iter().all(|d| !d.error);
        out.push(("diagnostics".into(), format!("{:?}", ds)));
        out.push(("tokens".into(), format!("{:?}", u.tokens().map(|t| (format!("{:?}", t.kind), t.span.start().source_pos(), t.span.end().source_pos())).collect::<Vec<_>>())));
        for &p in &w.spots {
            out.push((format!("definition at {}", p), format!("{:?}", u.find_definition(pos(p)).map(|s| (s.start().source_pos(), s.end().source_pos())))));
            out.push((format!("references at {}", p), format!("{:?}", u.find_references(pos(p)).map(|v| v.iter().map(|s| (s.start().source_pos(), s.end().source_pos())).collect::<Vec<_>>()))));
            out.push((format!("hover at {}", p), format!("{:?}", u.info(pos(p)).map(|i| (i.span.start().source_pos(), i.span.end().source_pos(), i.doc)))));
            out.push((format!("completions at {}", p), format!("{:?}", u.completions(pos(p)).map(|v| v.into_iter().map(|c| c.name).collect::<Vec<_>>()))));
        }
        if clean && w.run {
            for optimize in [false, true] {
                let mut u = CompilationUnit::new(text, Options { verify, optimize }, lib.clone());
                out.push((format!("IR, optimize {}", optimize), u.emit_ir()));
                for rn in RUNNERS {
                    out.push((format!("values, {} optimize {}", rn, optimize), format!("{:?}", cut::run(&mut u, rn))));
                    if w.main {
                        out.push((format!("output, {} optimize {}", rn, optimize), format!("{:?}", cut::run_main(&mut u, rn, &w.input))));
                    }
                }
                out.push((format!("IR, optimize {}", optimize), u.emit_ir()));
            }
        }
    });
    if let Err(p) = r {
        out.push(("crash".into(), p));
    }
    out
}

fn differ(a: &Answers, b: &Answers) -> Option<(String, String)> {
    let name = |s: &str| s.split([' ', ',']).next().unwrap_or("").to_owned();
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return Some((name(&x.0), format!("{} / {}\n{}", x.0, y.0, first_diff(&x.1, &y.1))));
        }
    }
    if a.len() != b.len() {
        return Some(("number of answers".into(), format!("{:?}\n{:?}", a.iter().map(|x| &x.0).collect::<Vec<_>>(), b.iter().map(|x| &x.0).collect::<Vec<_>>())));
    }
    None
}

fn own_modules(a: &Answers) -> Answers {
    a.iter().filter(|x| !x.0.starts_with("diagnostics of")).cloned().collect()
}

/// The same work on several threads that start together.
fn together(w: &Arc<Work>, r: &mut Rng, threads: usize, shared: bool, cold: bool) -> Vec<Answers> {
    let ready = if shared {
        let Ok(l) = guard(|| modules(w, 0, &mut vec![])) else { return vec![] };
        Some(l)
    } else {
        None
    };
    let barrier = Arc::new(Barrier::new(threads));
    // all threads may want the same module first
    let same = if r.chance(60) { Some(stdsig::PATHS[r.below(stdsig::PATHS.len())]) } else { None };
    let handles: Vec<_> = (0..threads)
        .map(|_| {
            let (w, ready, barrier) = (w.clone(), ready.clone(), barrier.clone());
            let wait = if r.chance(50) { 0 } else { r.below(400) as u64 };
            let delay = if r.chance(60) { 0 } else { r.below(300) as u64 };
            let first = if cold { same.or(Some(stdsig::PATHS[r.below(stdsig::PATHS.len())])) } else { None };
            std::thread::Builder::new()
                .stack_size(224 << 20)
                .spawn(move || {
                    barrier.wait();
                    if wait > 0 {
                        std::thread::sleep(Duration::from_micros(wait));
                    }
                    let mut bad = None;
                    if let Some(m) = first {
                        let r = guard(|| {
                            let t = format!("import m from \"{}\";\nlet x : int = m.", m);
                            let mut u = CompilationUnit::new(&t[..t.find('\n').unwrap()], Options::default(), crate::textgen::resolver());
                            let d: Vec<_> = cut::diags(&mut u).into_iter().filter(|d| d.error).collect();
                            let mut u = CompilationUnit::new(&t, Options::default(), crate::textgen::resolver());
                            let c = u.completions(pos(t.len())).map_or(0, |c| c.len());
                            (d, c)
                        });
                        match r {
                            Ok((d, c)) if d.is_empty() && c > 0 => {}
                            other => bad = Some((format!("module {}", m), format!("{:?}", other))),
                        }
                    }
                    let mut all = answers(&w, ready, delay, true);
                    all.extend(bad);
                    all
                })
                .unwrap()
        })
        .collect();
    handles.into_iter().map(|h| h.join().unwrap()).collect()
}

fn digest(a: &Answers) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for (l, t) in a {
        for b in l.bytes().chain([0]).chain(t.bytes()).chain([1]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

/// Body of the child process: nothing was compiled in it before the threads
/// start.
pub fn race(seed: u64, case: u64) -> i32 {
    crate::driver::limit_memory(8);
    let mut ctx = Ctx::new(crate::driver::Tier::Quick, seed);
    ctx.case = case;
    let mut r = ctx.rng("P04");
    let Some(w) = work(&mut ctx, &mut r) else { return 3 };
    let w = Arc::new(w);
    let mut r = ctx.rng("P04 race");
    let all = together(&w, &mut r, 8, false, true);
    let all: Vec<Answers> = all.iter().map(own_modules).collect();
    for a in &all[1..] {
        if let Some((n, d)) = differ(&all[0], a) {
            println!("{}\n{}", n, d);
            return 4;
        }
    }
    println!("{:x}", digest(&all[0]));
    0
}

/// The child process; `None` if it does not finish.
fn child(seed: u64, case: u64, secs: u64) -> (Option<std::process::ExitStatus>, String) {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["race", &seed.to_string(), &case.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let mut o = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = o.read_to_string(&mut s);
        s
    });
    let end = Instant::now() + Duration::from_secs(secs);
    let status = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ if Instant::now() > end => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    (status, rd.join().unwrap_or_default())
}

pub fn p04(ctx: &mut Ctx) {
    let mut r = ctx.rng("P04");
    let Some(w) = work(ctx, &mut r) else { return };
    let w = Arc::new(w);
    let mut r = ctx.rng("P04 plan");
    ctx.begin(&w.srcs);
    let base = answers(&w, None, 0, true);
    let plain = own_modules(&base);
    ctx.count("answers_compared_with", plain.len() as u64);
    let kind = match r.below(20) {
        0..=2 => "another process",
        3..=7 => "threads with modules of their own",
        8..=12 => "threads with the same modules",
        _ => "again",
    };
    ctx.count(kind, 1);
    ctx.class(&format!("{} {} {}", kind, w.shape, base.len()));
    let others: Vec<Answers> = match kind {
        "again" => (0..3).map(|k| own_modules(&answers(&w, None, 0, k != 1))).collect(),
        "another process" => {
            let (mut status, mut text) = child(ctx.seed, ctx.case, 30);
            if status.is_none() {
                (status, text) = child(ctx.seed, ctx.case, 80);
            }
            for _ in 0..8 * plain.len() {
                ctx.eval();
            }
            match status.map(|s| s.code()) {
                None => {
                    // a machine that is too slow, or threads that wait for each other
                    ctx.fail("threads that start compiling at the same time never finish", String::new(), &w.srcs);
                }
                Some(Some(0)) => {
                    if text.trim() != format!("{:x}", digest(&plain)) {
                        ctx.fail("answers differ between processes", format!("{} here, {} there", digest(&plain), text), &w.srcs);
                    }
                }
                Some(Some(4)) => ctx.fail(&format!("{} differ between threads", text.lines().next().unwrap_or("")), shorten(&text, 800), &w.srcs),
                Some(Some(3)) => ctx.count("harness_errors", 1),
                Some(_) => ctx.count("child_process_died", 1),
            }
            return;
        }
        k => together(&w, &mut r, 4, k == "threads with the same modules", false).iter().map(own_modules).collect(),
    };
    for o in &others {
        for _ in 0..plain.len() {
            ctx.eval();
        }
        if let Some((n, d)) = differ(&plain, o) {
            ctx.fail(&format!("{} differ: {}", n, kind), shorten(&d, 800), &w.srcs);
            return;
        }
    }
    ctx.sample(|| json!({"kind": kind, "modules": w.srcs.len(), "answers": plain.len(), "main_module": shorten(&w.srcs.last().unwrap().1, 300)}));
}
