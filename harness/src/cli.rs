//! Drives the command line compiler and judges files, streams and exit codes.
use crate::cut::{self, CompilationUnit, CompleteUnit, ImportError, MainOut, ModuleResolver, Options, Out, Runner};
use crate::driver::Ctx;
use crate::gen::Cfg;
use crate::lsp::{self, join, Scratch};
use crate::mutate;
use crate::print::{FANCY, MILD};
use crate::rng::Rng;
use crate::util::{shape, shorten, well_typed, Prog};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Done {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
    pub status: String,
}

/// Runs the compiler in `dir`. How deep a program may recurse on the default
/// stack is not promised, so what ran out of it gets another try on a large one.
pub fn ticc(dir: &Path, args: &[String], stdin: &[u8]) -> Result<Done, String> {
    let done = ticc_once(dir, args, stdin)?;
    if done.code.is_none() && done.err.contains("overflowed its stack") {
        let mut more = args.to_vec();
        if let Some(i) = more.iter().position(|a| a == "--stack") {
            more.drain(i..i + 2);
        }
        more.extend(["--stack".to_owned(), "3000".to_owned()]);
        return ticc_once(dir, &more, stdin);
    }
    Ok(done)
}

fn ticc_once(dir: &Path, args: &[String], stdin: &[u8]) -> Result<Done, String> {
    let mut c = Command::new(crate::paths::bins().join("ticc"))
        .args(args)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .env("TERM", "dumb")
        .env("NO_COLOR", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start ticc");
    let mut i = c.stdin.take().unwrap();
    let data = stdin.to_vec();
    let wr = std::thread::spawn(move || {
        let _ = i.write_all(&data);
    });
    let mut o = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = o.read_to_end(&mut v);
        v
    });
    let mut e = c.stderr.take().unwrap();
    let re = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let end = Instant::now() + Duration::from_secs(30);
    let status = loop {
        match c.try_wait() {
            Ok(Some(s)) => break s,
            _ if Instant::now() > end => {
                let _ = c.kill();
                let _ = c.wait();
                return Err("no result after 30 seconds".into());
            }
            _ => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let _ = wr.join();
    Ok(Done { code: status.code(), out: rd.join().unwrap(), err: strip_ansi(&String::from_utf8_lossy(&re.join().unwrap())), status: status.to_string() })
}

fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// (severity, message, file, line, column) of every printed diagnostic.
fn printed(err: &str) -> Vec<(String, String, String, String)> {
    let mut out = vec![];
    let lines: Vec<&str> = err.lines().collect();
    for (i, l) in lines.iter().enumerate() {
        for sev in ["error", "warning"] {
            if let Some(m) = l.strip_prefix(&format!("{}: ", sev)) {
                let next = lines.get(i + 1).map(|s| s.trim_start()).unwrap_or("");
                if let Some(loc) = next.strip_prefix("--> ").or(next.strip_prefix("┌─ ")) {
                    let mut p = loc.rsplitn(3, ':');
                    let (c, l, f) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
                    out.push((sev.to_owned(), m.to_owned(), f.to_owned(), format!("{}:{}", l, c)));
                }
            }
        }
    }
    out
}

fn line_col(text: &str, off: usize) -> String {
    let before = &text[..off];
    let line = before.matches('\n').count() + 1;
    let start = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
    format!("{}:{}", line, before[start..].chars().count() + 1)
}

fn wanted(ds: &[cut::Diag], text: &str) -> Vec<(String, String, String)> {
    let mut v: Vec<_> = ds.iter().map(|d| ((if d.error { "error" } else { "warning" }).to_owned(), d.message.clone(), line_col(text, d.start))).collect();
    v.sort();
    v
}

// ---- the model of modules in files ---------------------------------------------------

struct Model {
    files: BTreeMap<String, Vec<u8>>,
    /// other names of files
    alias: BTreeMap<String, String>,
    /// other names of directories
    dirlinks: BTreeMap<String, String>,
    done: Mutex<HashMap<String, Option<CompleteUnit>>>,
    first_error: Mutex<Option<(String, String, Vec<cut::Diag>)>>,
    odd: Mutex<bool>,
    looked_up: Mutex<u64>,
}

struct Res {
    cur: String,
    m: Arc<Model>,
}

impl ModuleResolver for Res {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        *self.m.looked_up.lock().unwrap() += 1;
        let Some(mut key) = join(&self.cur, name) else {
            *self.m.odd.lock().unwrap() = true;
            return Err(ImportError::DoesNotExist);
        };
        if !self.m.dirlinks.is_empty() {
            match self.m.through_links(&self.cur, name) {
                Some(k) => key = k,
                None => {
                    *self.m.odd.lock().unwrap() = true;
                    return Err(ImportError::DoesNotExist);
                }
            }
        } else if !self.m.walkable(&self.cur, name) {
            *self.m.odd.lock().unwrap() = true;
            return Err(ImportError::DoesNotExist);
        }
        let key = self.m.alias.get(&key).cloned().unwrap_or(key);
        match self.m.done.lock().unwrap().get(&key) {
            Some(Some(u)) => return Ok(u.clone()),
            Some(None) => return Err(ImportError::ImportCycle),
            None => {}
        }
        let io = |k: std::io::ErrorKind| Err(ImportError::Io(k.into()));
        let text = match self.m.files.get(&key) {
            Some(b) => match String::from_utf8(b.clone()) {
                Ok(t) => t,
                Err(_) => return io(std::io::ErrorKind::InvalidData),
            },
            None => return io(std::io::ErrorKind::NotFound),
        };
        self.m.done.lock().unwrap().insert(key.clone(), None);
        let mut u = CompilationUnit::new(&text, Options::default(), Arc::new(Res { cur: key.clone(), m: self.m.clone() }));
        let ds = cut::diags(&mut u);
        let u = u.complete();
        if ds.iter().any(|d| d.error) {
            self.m.first_error.lock().unwrap().get_or_insert((key.clone(), text, ds));
        }
        self.m.done.lock().unwrap().insert(key, Some(u.clone()));
        Ok(u)
    }
}

impl Model {
    /// `..` does not undo a step into a directory that is missing.
    fn walkable(&self, cur: &str, name: &str) -> bool {
        let mut at: Vec<&str> = cur.split('/').collect();
        at.pop();
        let steps: Vec<&str> = name.split('/').collect();
        let mut missing = false;
        steps[..steps.len() - 1].iter().all(|s| match *s {
            "." => !missing,
            ".." => !missing && at.pop().is_some(),
            s => {
                at.push(s);
                let dir = at.join("/") + "/";
                missing |= !self.files.keys().chain(self.alias.keys()).any(|f| f.starts_with(&dir));
                true
            }
        })
    }

    /// Where a path leads when every step is taken in the file system: `..`
    /// after a link to a directory is the parent of what it links to.
    fn through_links(&self, cur: &str, name: &str) -> Option<String> {
        let mut at: Vec<String> = cur.split('/').map(|s| s.to_owned()).collect();
        at.pop();
        let steps: Vec<&str> = name.split('/').collect();
        for s in &steps[..steps.len() - 1] {
            match *s {
                "." => {}
                ".." => {
                    at.pop()?;
                }
                s => {
                    at.push(s.to_owned());
                    if let Some(to) = self.dirlinks.get(&at.join("/")) {
                        at = to.split('/').filter(|s| !s.is_empty()).map(|s| s.to_owned()).collect();
                    } else if !self.files.keys().any(|f| f.starts_with(&(at.join("/") + "/"))) {
                        return None;
                    }
                }
            }
        }
        at.push(steps[steps.len() - 1].to_owned());
        Some(at.join("/"))
    }

    fn new(files: &BTreeMap<String, Vec<u8>>, alias: &BTreeMap<String, String>) -> Arc<Model> {
        Model::with_links(files, alias, &BTreeMap::new())
    }

    fn with_links(files: &BTreeMap<String, Vec<u8>>, alias: &BTreeMap<String, String>, dirlinks: &BTreeMap<String, String>) -> Arc<Model> {
        Arc::new(Model { files: files.clone(), alias: alias.clone(), dirlinks: dirlinks.clone(), done: Default::default(), first_error: Default::default(), odd: Default::default(), looked_up: Default::default() })
    }

    fn unit(self: &Arc<Model>, main: &str, o: Options) -> CompilationUnit {
        self.done.lock().unwrap().insert(main.to_owned(), None);
        let text = String::from_utf8(self.files[main].clone()).unwrap();
        CompilationUnit::new(&text, o, Arc::new(Res { cur: main.to_owned(), m: self.clone() }))
    }
}

/// What the compiler must print: diagnostics of the first module with errors,
/// or of the main file.
struct Verdict {
    file: String,
    diags: Vec<(String, String, String)>,
    error: bool,
}

fn verdict(m: &Arc<Model>, main: &str, u: &mut CompilationUnit) -> Verdict {
    let ds = cut::diags(u);
    let text = String::from_utf8(m.files[main].clone()).unwrap();
    match &*m.first_error.lock().unwrap() {
        Some((f, t, ds)) => Verdict { file: f.clone(), diags: wanted(ds, t), error: true },
        None => Verdict { file: main.to_owned(), diags: wanted(&ds, &text), error: ds.iter().any(|d| d.error) },
    }
}

fn io_message(m: &str) -> String {
    // the wording of the operating system is not judged
    match m.strip_prefix("failed to read module") {
        Some(_) => "failed to read module".into(),
        None => m.to_owned(),
    }
}

struct Job<'a> {
    dir: &'a Path,
    files: &'a BTreeMap<String, Vec<u8>>,
}

impl Job<'_> {
    fn fail(&self, ctx: &mut Ctx, key: &str, args: &[String], detail: String) {
        let files: Vec<_> = self.files.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).into_owned())).collect();
        ctx.fail(key, format!("ticc {}\n{}", args.join(" "), detail), &files);
    }

    /// Diagnostics on the standard error stream.
    fn check_diags(&self, ctx: &mut Ctx, args: &[String], cwd: &Path, d: &Done, v: &Verdict) -> bool {
        let got = printed(&d.err);
        let mut g: Vec<_> = got.iter().map(|x| (x.0.clone(), io_message(&x.1), x.3.clone())).collect();
        let mut w: Vec<_> = v.diags.iter().map(|x| (x.0.clone(), io_message(&x.1), x.2.clone())).collect();
        g.sort();
        w.sort();
        if g != w {
            let miss: Vec<_> = w.iter().filter(|x| !g.contains(x)).collect();
            let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).collect();
            self.fail(ctx, "printed diagnostics differ from those of the library", args, format!("missing {:?}\nextra {:?}\n{}", miss, extra, shorten(&d.err, 600)));
            return false;
        }
        let want = self.dir.join(&v.file).canonicalize().unwrap();
        for x in &got {
            let p = cwd.join(&x.2);
            if p.canonicalize().ok() != Some(want.clone()) {
                self.fail(ctx, "a diagnostic names the wrong file", args, format!("expected {}, got {}", want.display(), x.2));
                return false;
            }
        }
        ctx.count("diagnostics_compared", g.len() as u64);
        true
    }
}

fn write_all(dir: &Path, files: &BTreeMap<String, Vec<u8>>) {
    for (k, v) in files {
        let p = dir.join(k);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, v).unwrap();
    }
}

fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_owned()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() && !p.is_symlink() {
                todo.push(p);
            } else {
                out.insert(p.strip_prefix(dir).unwrap().to_owned(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    out
}

fn subject(ctx: &mut Ctx, r: &mut Rng) -> Option<Prog> {
    let mut cfg = Cfg::run();
    cfg.modules = (1, 3);
    cfg.main = 60;
    if r.chance(25) {
        return crate::families::prog(r, FANCY).map(|x| x.1);
    }
    let _ = &ctx;
    well_typed(r, &cfg, FANCY)
}

// ---- P30: the contract of the command line ------------------------------------------------

pub fn p30(ctx: &mut Ctx) {
    let mut r = ctx.rng("P30");
    let Some(prog) = subject(ctx, &mut r) else { return };
    // programs that would take too long are left out
    let mut ev = crate::refeval::Eval::new(&prog.p, &prog.info, 60_000);
    let ran = ev.run();
    if ran.is_err() {
        ctx.count("skipped_reference_out_of_fuel", 1);
        return;
    }
    let mut p = prog.p.clone();
    let mut runnable = true;
    if r.chance(25) {
        // most of these have errors
        for _ in 0..r.range(1, 3) {
            mutate::mutate(&mut p, &mut r);
        }
        runnable = false;
    }
    let mut files: BTreeMap<String, Vec<u8>> = lsp::texts(&p, &mut r, FANCY).into_iter().map(|(k, t)| (k, t.into_bytes())).collect();
    if r.chance(10) {
        let t = String::from_utf8(files["main.tic"].clone()).unwrap();
        files.insert("main.tic".into(), crate::textgen::damage(&t, &mut r).into_bytes());
        runnable = false;
    }
    let scratch = Scratch::new(ctx);
    let dir = scratch.0.join("proj");
    write_all(&dir, &files);
    let shown: Vec<_> = files.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).into_owned())).collect();
    ctx.begin(&shown);
    let job = Job { dir: &dir, files: &files };
    for _ in 0..4 {
        if !p30_one(ctx, &mut r, &job, runnable, &prog) {
            return;
        }
    }
}

fn p30_one(ctx: &mut Ctx, r: &mut Rng, job: &Job, runnable: bool, prog: &Prog) -> bool {
    let dir = job.dir;
    let before = snapshot(dir);
    let optimize = r.chance(50);
    let verify = r.chance(60);
    let runner = *r.pick(&[None, Some(Runner::Lambda), Some(Runner::Bytecode), Some(Runner::Treewalk)]);
    // the compiler need not run where the program is
    let away = r.chance(30);
    let cwd = if away { dir.join("../elsewhere") } else { dir.to_owned() };
    std::fs::create_dir_all(&cwd).unwrap();
    let input_name = match r.below(2) {
        _ if !away => "main.tic".to_owned(),
        0 => "../proj/main.tic".to_owned(),
        _ => dir.join("main.tic").display().to_string(),
    };
    let mut args: Vec<String> = vec![input_name];
    if away {
        ctx.count("runs_from_another_directory", 1);
    }
    if optimize {
        args.push("--optimize".into());
    }
    if !verify {
        args.push("--no-verify".into());
    }
    if let Some(rn) = runner {
        args.push("--runner".into());
        args.push(rn.to_string());
    }
    if r.chance(20) {
        args.push("--stack".into());
        args.push(r.pick(&["16", "64", "200"]).to_string());
    }
    let time = r.chance(10);
    if time {
        args.push("--time".into());
    }
    let input: Vec<u8> = match r.below(4) {
        0 => vec![],
        1 => b"1 2 3\n45,x\n".to_vec(),
        2 => (0..r.below(300)).map(|_| r.below(256) as u8).collect(),
        _ => (0..r.below(80)).map(|_| *r.pick(b"0123456789 ,\nabc")).collect(),
    };
    let mode = *r.pick(&["check", "eval", "eval", "run", "run", "run", "ir", "none", "check+eval", "fault"]);
    let mut stdin: Vec<u8> = vec![];
    match mode {
        "check" => args.push(r.pick(&["--check", "-c"]).to_string()),
        "check+eval" => {
            args.push("--check".into());
            args.push("--eval".into());
        }
        "eval" => args.push("--eval".into()),
        "run" => {
            args.push("--run".into());
            if r.chance(50) {
                args.push("-".into());
                stdin = input.clone();
            } else {
                std::fs::write(dir.join("../input"), &input).unwrap();
                args.push("../input".into());
            }
        }
        "ir" => args.push("--emit-ir".into()),
        _ => {}
    }
    let out_file = match r.below(4) {
        0 if mode != "none" => {
            args.push("-o".into());
            args.push("-".into());
            Some("-".to_owned())
        }
        1 | 2 if mode != "none" => {
            args.push(r.pick(&["-o", "--output"]).to_string());
            args.push("../result".into());
            if r.chance(50) {
                std::fs::write(dir.join("../result"), "previous content, longer than many results ".repeat(3)).unwrap();
            } else {
                let _ = std::fs::remove_file(dir.join("../result"));
            }
            Some("../result".to_owned())
        }
        _ => None,
    };
    if mode == "fault" {
        args[0] = "main.tic".into();
        return p30_fault(ctx, r, job, &args);
    }
    let result_before = std::fs::read(dir.join("../result")).ok();
    let model = Model::new(job.files, &BTreeMap::new());
    let Ok((mut u, v)) = cut::guard(|| {
        let mut u = model.unit("main.tic", Options { verify: false, optimize });
        let v = verdict(&model, "main.tic", &mut u);
        (u, v)
    }) else {
        ctx.count("skipped_panic_in_front_end", 1);
        return false;
    };
    if *model.odd.lock().unwrap() {
        ctx.count("skipped_odd_path", 1);
        return false;
    }
    if !runnable && !v.error && mode != "check" {
        // not known to end
        ctx.count("skipped_accepted_mutant", 1);
        return true;
    }
    let d = match ticc(&cwd, &args, &stdin) {
        Ok(d) => d,
        Err(e) => {
            job.fail(ctx, &e, &args, String::new());
            return false;
        }
    };
    ctx.eval();
    ctx.count(&format!("mode {}", mode), 1);
    if d.code.is_none() || d.code == Some(101) {
        job.fail(ctx, "the compiler crashed", &args, format!("{}\n{}", d.status, shorten(&d.err, 800)));
        return false;
    }
    if !job.check_diags(ctx, &args, &cwd, &d, &v) {
        return false;
    }
    // what the streams and files must be
    let mut want_code = 0;
    let mut want_out: Vec<u8> = vec![];
    let mut want_file: Option<Vec<u8>> = None;
    let mut want_ir: Option<Vec<u8>> = None;
    let mut want_err: Option<String> = None;
    let rn = runner.unwrap_or(Runner::Bytecode);
    if v.error {
        want_code = 1;
    } else {
        let res: Option<Vec<u8>> = match mode {
            "eval" => Some(match cut::run(&mut u, rn) {
                Out::Values(s) => s.into_bytes(),
                Out::Trap(t) => format!("error: {}", t).into_bytes(),
                Out::Panic(_) => return false,
            }),
            "run" => match cut::run_main(&mut u, rn, &input) {
                MainOut::Bytes(b) => Some(b),
                MainOut::Trap(t) => {
                    want_err = Some(t);
                    None
                }
                MainOut::NoMain => {
                    want_err = Some("main function is not defined".into());
                    None
                }
                MainOut::InvalidMain => {
                    want_err = Some("main function must have type `string -> string`".into());
                    None
                }
                MainOut::Panic(_) => return false,
            },
            "ir" => {
                let Ok(ir) = cut::guard(|| u.emit_ir()) else { return false };
                Some(ir.into_bytes())
            }
            _ => None,
        };
        if want_err.is_some() {
            want_code = 1;
        }
        if let Some(res) = res {
            ctx.class(&format!("{} {:?} {} {}", mode, out_file, v.diags.len().min(3), shape(&prog.p)));
            match (&out_file, mode) {
                (None, "ir") => want_ir = Some(res),
                (None, _) => want_out = res,
                (Some(f), _) if f == "-" => want_out = res,
                _ => want_file = Some(res),
            }
            if want_ir.is_none() && want_file.is_none() {
                if mode == "run" {
                    want_out = String::from_utf8_lossy(&want_out).into_owned().into_bytes();
                }
                want_out.push(b'\n');
            }
        }
    }
    let mut bad = vec![];
    if d.code != Some(want_code) {
        bad.push(format!("exit code: expected {}, got {}", want_code, d.status));
    }
    if d.out != want_out {
        bad.push(format!("standard output: expected {:?}, got {:?}", shorten(&String::from_utf8_lossy(&want_out), 300), shorten(&String::from_utf8_lossy(&d.out), 300)));
    }
    if let Some(e) = &want_err {
        if !d.err.lines().any(|l| l == format!("error: {}", e)) {
            bad.push(format!("standard error: expected {:?}, got {:?}", e, shorten(&d.err, 300)));
        }
    }
    if time && !v.error && (mode == "eval" || mode == "run") && want_err.is_none() && !d.err.contains("time: ") {
        bad.push("no time was printed".into());
    }
    let result_after = std::fs::read(dir.join("../result")).ok();
    let want_result = want_file.clone().or(result_before);
    if result_after != want_result {
        bad.push(format!("output file: expected {:?}, got {:?}", want_result.map(|v| shorten(&String::from_utf8_lossy(&v), 300)), result_after.map(|v| shorten(&String::from_utf8_lossy(&v), 300))));
    }
    let mut want_after = before.clone();
    if let Some(ir) = want_ir {
        want_after.insert("main.cir".into(), ir);
    }
    let after = snapshot(dir);
    if after != want_after {
        let odd: Vec<_> = after.iter().filter(|(k, v)| want_after.get(*k) != Some(v)).map(|(k, _)| k.clone()).chain(want_after.keys().filter(|k| !after.contains_key(*k)).cloned()).collect();
        bad.push(format!("files of the project: unexpected state of {:?}", odd));
    }
    let _ = std::fs::remove_file(dir.join("main.cir"));
    if away && !snapshot(&cwd).is_empty() {
        bad.push(format!("files left where the compiler was started: {:?}", snapshot(&cwd).keys().collect::<Vec<_>>()));
        let _ = std::fs::remove_dir_all(&cwd);
    }
    if !bad.is_empty() {
        let key = format!("{}: wrong {}", mode, bad[0].split(':').next().unwrap_or(""));
        job.fail(ctx, &key, &args, bad.join("\n"));
        return false;
    }
    ctx.sample(|| json!({"args": args, "exit": want_code, "stdout": shorten(&String::from_utf8_lossy(&d.out), 200)}));
    true
}

/// Faults of the surroundings: they end with an error message and code 1.
fn p30_fault(ctx: &mut Ctx, r: &mut Rng, job: &Job, base: &[String]) -> bool {
    let mut args: Vec<String> = base.iter().filter(|a| *a != "-o" && *a != "--output" && *a != "../result" && *a != "-").cloned().collect();
    let kind = *r.pick(&["input missing", "input is a directory", "input not text", "run input missing", "unwritable output", "bad runner", "bad flag"]);
    let model = Model::new(job.files, &BTreeMap::new());
    let Ok(v) = cut::guard(|| {
        let mut u = model.unit("main.tic", Options::default());
        verdict(&model, "main.tic", &mut u)
    }) else {
        return false;
    };
    match kind {
        "input missing" => args[0] = "nonexistent.tic".into(),
        "input is a directory" => args[0] = ".".into(),
        "input not text" => {
            std::fs::write(job.dir.join("../binary.tic"), b"let x = \xff;").unwrap();
            args[0] = "../binary.tic".into();
        }
        "run input missing" => args.extend(["--run".into(), "../no-such-input".into()]),
        "unwritable output" => args.extend([r.pick(&["--eval", "--emit-ir"]).to_string(), "-o".into(), "../no-such-dir/result".into()]),
        "bad runner" => args.extend(["--eval".into(), "--runner".into(), "quick".into()]),
        _ => args.push("--no-such-flag".into()),
    }
    if kind == "bad runner" && args.iter().filter(|a| *a == "--runner").count() > 1 {
        return true;
    }
    if kind == "unwritable output" && args.contains(&"--eval".to_owned()) && v.error {
        return true;
    }
    let before = snapshot(job.dir);
    let d = match ticc(job.dir, &args, b"") {
        Ok(d) => d,
        Err(e) => {
            job.fail(ctx, &e, &args, String::new());
            return false;
        }
    };
    ctx.eval();
    ctx.count(&format!("fault {}", kind), 1);
    ctx.class(&format!("fault {} {}", kind, v.error));
    let ok = d.code.map_or(false, |c| c != 0 && c != 101) && d.out.is_empty() && d.err.contains("error") && snapshot(job.dir) == before;
    let named = match kind {
        "input missing" => d.err.contains("nonexistent.tic"),
        "input not text" => d.err.contains("binary.tic"),
        "run input missing" => v.error || d.err.contains("no-such-input"),
        "unwritable output" => v.error || d.err.contains("no-such-dir"),
        _ => true,
    };
    if ok && !named {
        job.fail(ctx, &format!("{}: the error does not name the file", kind), &args, shorten(&d.err, 300).to_string());
        return false;
    }
    if !ok {
        job.fail(ctx, &format!("{}: not reported as an error", kind), &args, format!("{}\nstdout {:?}\nstderr {}", d.status, shorten(&String::from_utf8_lossy(&d.out), 200), shorten(&d.err, 300)));
    }
    ok
}

// ---- P31: modules in files ----------------------------------------------------------------------

pub fn p31(ctx: &mut Ctx) {
    let mut r = ctx.rng("P31");
    let mut cfg = Cfg::run();
    cfg.modules = (2, 5);
    cfg.budget = 30;
    cfg.items = (1, 4);
    cfg.std = 15;
    let Some(prog) = well_typed(&mut r, &cfg, MILD) else { return };
    // any module might be run, and imports are added
    for n in 1..=prog.p.modules.len() {
        let mut part = prog.p.clone();
        part.modules.truncate(n);
        let info = crate::refcheck::check(&part);
        if crate::refeval::Eval::new(&part, &info, 60_000).run().is_err() {
            ctx.count("skipped_reference_out_of_fuel", 1);
            return;
        }
    }
    let mut damaged = false;
    let mut files: BTreeMap<String, Vec<u8>> = lsp::texts(&prog.p, &mut r, MILD).into_iter().map(|(k, t)| (k, t.into_bytes())).collect();
    let scratch = Scratch::new(ctx);
    let dir = scratch.0.join("proj dir");
    let mut alias = BTreeMap::new();
    let mut links = vec![];
    let names: Vec<String> = files.keys().cloned().collect();
    let mut fault = "none";
    let edits = r.below(3);
    for _ in 0..edits {
        let k = r.pick(&names).clone();
        let to = r.pick(&names).clone();
        let mut text = String::from_utf8(files[&k].clone()).unwrap();
        match r.below(9) {
            0 | 1 => {
                // imports anything, so cycles appear
                text = format!("import zz from \"{}\";\n{}", lsp::spell(&k, &to, &mut r, &[]), text);
                fault = "extra import";
            }
            2 => {
                text = format!("import zz from \"{}\";\n{}", lsp::spell(&k, "gone/missing.tic", &mut r, &[]), text);
                fault = "missing module";
            }
            3 => {
                text = format!("{}\nlet broken : int = true;\n", text);
                fault = "error in a module";
            }
            4 => {
                let first = r.pick(&names).clone();
                let t = String::from_utf8(files[&first].clone()).unwrap();
                files.insert(first.clone(), crate::textgen::damage(&t, &mut r).into_bytes());
                fault = "damage";
                damaged = true;
                if first == k {
                    continue;
                }
            }
            5 => {
                files.insert("bin.tic".into(), b"export let x : int = 1; -- \xff\xfe".to_vec());
                text = format!("import zz from \"{}\";\n{}", lsp::spell(&k, "bin.tic", &mut r, &[]), text);
                fault = "not text";
            }
            6 => {
                // a module of the same name as a standard one
                let d = k.rsplit_once('/').map(|x| format!("{}/", x.0)).unwrap_or_default();
                files.insert(format!("{}std/list", d), b"export let nope : int = 1;".to_vec());
                text = format!("import zz (Cons) from \"std/list\";\n{}", text);
                fault = "shadowed standard module";
            }
            _ => {
                // another name of a module in the same directory
                let link = match to.rsplit_once('/') {
                    Some((d, f)) => format!("{}/alias {}", d, f),
                    None => format!("alias {}", to),
                };
                links.push((link.clone(), to.clone()));
                alias.insert(link.clone(), to.clone());
                // imports of it now use the other name here and there
                let base = to.rsplit('/').next().unwrap();
                if text.contains(&format!("/{}\"", base)) {
                    text = text.replacen(&format!("/{}\"", base), &format!("/alias {}\"", base), 1);
                } else {
                    text = text.replacen(&format!("\"{}\"", base), &format!("\"alias {}\"", base), 1);
                }
                fault = "link";
            }
        }
        if let Some(f) = files.get_mut(&k) {
            *f = text.into_bytes();
        }
    }
    // imports that pass through links to directories
    let mut dirlinks: BTreeMap<String, String> = BTreeMap::new();
    if r.chance(35) {
        let mut dirs: Vec<String> = files.keys().filter_map(|f| f.rsplit_once('/').map(|d| d.0.to_owned())).collect();
        dirs.push("one/two".into());
        dirs.push("one".into());
        files.insert("one/two/note".into(), b"nothing".to_vec());
        for n in 0..r.range(1, 3) {
            let k = r.pick(&names).clone();
            let Ok(text) = String::from_utf8(files[&k].clone()) else { continue };
            let found: Vec<(usize, usize)> = text.match_indices("from \"").filter_map(|(i, w)| Some((i + w.len(), i + w.len() + text[i + w.len()..].find('"')?))).collect();
            if found.is_empty() {
                continue;
            }
            let (a, b) = *r.pick(&found);
            let Some(to) = join(&k, &text[a..b]) else { continue };
            if text[a..b].starts_with("std/") || text[a..b].contains("alias") || text[a..b].contains("link ") || !files.contains_key(&to) {
                continue;
            }
            let target = r.pick(&dirs).clone();
            let place = if r.chance(50) { String::new() } else { r.pick(&dirs).clone() };
            let link = if place.is_empty() { format!("link {}", n) } else { format!("{}/link {}", place, n) };
            let at = k.rsplit_once('/').map_or(String::new(), |x| x.0.to_owned());
            let way = |from: &str, to: &str| {
                let a: Vec<&str> = from.split('/').filter(|s| !s.is_empty()).collect();
                let b: Vec<&str> = to.split('/').filter(|s| !s.is_empty()).collect();
                let same = a.iter().zip(&b).take_while(|x| x.0 == x.1).count();
                let mut v: Vec<String> = vec!["..".to_owned(); a.len() - same];
                v.extend(b[same..].iter().map(|s| s.to_string()));
                v.join("/")
            };
            let path = format!("{}/{}", way(&at, &link), way(&target, &to));
            files.insert(k, format!("{}{}{}", &text[..a], path, &text[b..]).into_bytes());
            dirlinks.insert(link, target);
            ctx.count("imports_through_linked_directories", 1);
        }
    }
    // `alias` must name what the replaced text resolves to
    write_all(&dir, &files);
    for (l, to) in &links {
        let _ = std::os::unix::fs::symlink(to.rsplit('/').next().unwrap(), dir.join(l));
    }
    for (l, to) in &dirlinks {
        let _ = std::os::unix::fs::symlink(dir.join(to), dir.join(l));
    }
    let shown: Vec<_> = files.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).into_owned())).collect();
    ctx.begin(&shown);
    let job = Job { dir: &dir, files: &files };
    // the main file, or another module as the main one
    let main = if r.chance(70) { "main.tic".to_owned() } else { r.pick(&names).clone() };
    let model = Model::with_links(&files, &alias, &dirlinks);
    let Ok((mut u, v)) = cut::guard(|| {
        let mut u = model.unit(&main, Options { verify: false, optimize: false });
        let v = verdict(&model, &main, &mut u);
        (u, v)
    }) else {
        ctx.count("skipped_panic_in_front_end", 1);
        return;
    };
    if *model.odd.lock().unwrap() {
        ctx.count("skipped_odd_path", 1);
        return;
    }
    // the place it is started from does not matter
    let (cwd, input) = match r.below(4) {
        0 => (dir.clone(), main.clone()),
        1 => (scratch.0.clone(), format!("proj dir/{}", main)),
        2 => (PathBuf::from("/"), dir.join(&main).to_str().unwrap().to_owned()),
        _ => (dir.clone(), format!("./{}", main)),
    };
    // damaged programs that are still accepted might run forever
    let args = vec![input, if damaged { "--check" } else { "--eval" }.to_owned()];
    let d = match ticc(&cwd, &args, b"") {
        Ok(d) => d,
        Err(e) => {
            job.fail(ctx, &e, &args, String::new());
            return;
        }
    };
    ctx.eval();
    ctx.count(&format!("case: {}", fault), 1);
    ctx.count("lookups", *model.looked_up.lock().unwrap());
    if d.code.is_none() || d.code == Some(101) {
        job.fail(ctx, "the compiler crashed", &args, format!("{}\n{}", d.status, shorten(&d.err, 800)));
        return;
    }
    if !job.check_diags(ctx, &args, &cwd, &d, &v) {
        return;
    }
    if v.diags.iter().any(|x| x.1 == "import cycle") {
        ctx.count("cycles_reported", 1);
    }
    if v.file != main {
        ctx.count("errors_in_modules_reported", 1);
    }
    ctx.class(&format!("{} {} {:?} {}", fault, main == "main.tic", v.diags.iter().map(|x| &x.1).collect::<Vec<_>>(), shape(&prog.p)));
    let code = i32::from(v.error);
    if d.code != Some(code) {
        job.fail(ctx, "wrong exit code", &args, format!("expected {}, got {}\n{}", code, d.status, shorten(&d.err, 500)));
        return;
    }
    let want = if v.error || damaged {
        String::new()
    } else {
        match cut::run(&mut u, Runner::Bytecode) {
            Out::Values(s) => format!("{}\n", s),
            Out::Trap(t) => format!("error: {}\n", t),
            Out::Panic(_) => return,
        }
    };
    if d.out != want.as_bytes() {
        job.fail(ctx, "wrong output", &args, format!("expected {:?}\n     got {:?}", shorten(&want, 400), shorten(&String::from_utf8_lossy(&d.out), 400)));
        return;
    }
    if !v.error && !damaged {
        ctx.count("projects_evaluated", 1);
        ctx.sample(|| json!({"files": names, "main": main, "output": shorten(&want, 200)}));
    }
}
