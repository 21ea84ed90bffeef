//! Runs a property: a controller process hands case numbers to worker
//! processes, attributes crashes and stalls to single cases, and writes the
//! evidence.  A case number plus VERIF_SEED determines everything a case does.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        if self == Tier::Quick { "quick" } else { "thorough" }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: u64,
    pub key: String,
    pub detail: String,
    pub files: Vec<(String, String)>,
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub case: u64,
    pub evals: u64,
    pub classes: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub announce: bool,
}

impl Ctx {
    pub fn new(tier: Tier, seed: u64) -> Ctx {
        Ctx { tier, seed, case: 0, evals: 0, classes: HashSet::new(), counts: BTreeMap::new(), samples: vec![], violations: vec![], announce: false }
    }
    /// Notes the program under test, for reports about crashes.
    pub fn begin(&mut self, files: &[(String, String)]) {
        if self.announce {
            println!("F {}", json!(files));
        }
    }
    /// One execution judged by an oracle.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// Records a distinct, non-trivial behaviour.
    pub fn class(&mut self, what: &str) {
        if self.classes.len() < 60_000 {
            self.classes.insert(crate::rng::hash64(what.as_bytes()));
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counts.entry(what.to_owned()).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn fail(&mut self, key: &str, detail: String, files: &[(String, String)]) {
        if self.violations.len() < 20 {
            self.violations.push(Violation { case: self.case, key: strip_digits(key), detail, files: files.to_vec() });
        }
    }
    pub fn rng(&self, prop: &str) -> crate::rng::Rng {
        crate::rng::Rng::new(crate::rng::hash64(format!("{}/{}/{}", self.seed, prop, self.case).as_bytes()))
    }
}

/// Keys name the kind of a failure, so numbers (lines, sizes) are dropped.
pub fn strip_digits(s: &str) -> String {
    let mut out = String::new();
    let mut in_num = false;
    for c in s.chars().take(220) {
        if c.is_ascii_digit() {
            if !in_num {
                out.push('#');
            }
            in_num = true;
        } else {
            in_num = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
    }
    out
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// (quick, thorough) seconds of exploration
    pub secs: (u64, u64),
    pub workers: usize,
    /// A case that crashes the process (signal, stack overflow) is a violation.
    pub crash: bool,
    /// A case that stalls for `stall` seconds, again when run alone, is a violation.
    pub stall: u64,
    pub hang: bool,
    pub case: fn(&mut Ctx),
}

const STACK: usize = 1 << 30;

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

fn run_case(p: &Prop, ctx: &mut Ctx) {
    // harness bugs must not look like violations
    if let Err(msg) = crate::cut::guard(|| (p.case)(ctx)) {
        if msg.contains(" at ticc") || msg.contains(" at formatter") {
            ctx.fail(&format!("panic: {}", msg), msg.clone(), &[]);
        } else {
            if std::env::var("TV_DEBUG").is_ok() {
                eprintln!("harness error in case {}: {}", ctx.case, msg);
            }
            ctx.count("harness_errors", 1);
        }
    }
}

pub fn worker(p: &'static Prop, tier: Tier, seed: u64, from: u64, step: u64, secs: f64) {
    on_big_stack(move || {
        limit_memory(4);
        let start = Instant::now();
        let mut ctx = Ctx::new(tier, seed);
        let out = std::io::stdout();
        let mut last = Instant::now();
        let mut reported = HashSet::new();
        let mut i = from;
        let max: u64 = std::env::var("TV_MAX_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
        while start.elapsed().as_secs_f64() < secs && i < max {
            ctx.case = i;
            {
                let mut o = out.lock();
                let _ = writeln!(o, "B {}", i);
                let _ = o.flush();
            }
            run_case(p, &mut ctx);
            for v in ctx.violations.drain(..) {
                println!("V {}", json!({"case": v.case, "key": v.key, "detail": v.detail, "files": v.files}));
            }
            i += step;
            // what was observed so far survives a crash of this process
            if last.elapsed().as_secs_f64() > 1.0 {
                report("P", &mut ctx, &mut reported);
                last = Instant::now();
            }
        }
        report("S", &mut ctx, &mut reported);
    });
}

fn report(tag: &str, ctx: &mut Ctx, reported: &mut HashSet<u64>) {
    let new: Vec<u64> = ctx.classes.iter().copied().filter(|c| reported.insert(*c)).collect();
    println!("{} {}", tag, json!({
        "evals": std::mem::take(&mut ctx.evals),
        "classes": new.iter().map(|c| format!("{:x}", c)).collect::<Vec<_>>(),
        "counts": std::mem::take(&mut ctx.counts),
        "samples": ctx.samples,
    }));
}

/// Runs one case alone; prints its violations.
pub fn single(p: &'static Prop, tier: Tier, seed: u64, case: u64) -> bool {
    on_big_stack(move || {
        limit_memory(6);
        let mut ctx = Ctx::new(tier, seed);
        ctx.case = case;
        ctx.announce = true;
        println!("B {}", case);
        run_case(p, &mut ctx);
        for v in &ctx.violations {
            println!("V {}", json!({"case": v.case, "key": v.key, "detail": v.detail, "files": v.files}));
        }
        println!("S {}", json!({"evals": ctx.evals, "classes": [], "counts": ctx.counts, "samples": ctx.samples}));
        !ctx.violations.is_empty()
    })
}

pub fn limit_memory(gb: u64) {
    unsafe {
        let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

struct W {
    child: std::process::Child,
    cur: Option<u64>,
    since: Instant,
    next: u64,
    done: bool,
    err: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
}

fn spawn(p: &Prop, tier: Tier, seed: u64, from: u64, step: u64, secs: f64, idx: usize, tx: &mpsc::Sender<Msg>) -> W {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args(["worker", p.id, tier.name(), &seed.to_string(), &from.to_string(), &step.to_string(), &format!("{}", secs)])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let so = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        let mut r = BufReader::new(so);
        let mut buf = Vec::new();
        loop {
            buf.clear();
            match r.read_until(b'\n', &mut buf) {
                Ok(0) | Err(_) => break,
                Ok(_) => {
                    let _ = tx.send(Msg::Line(idx, String::from_utf8_lossy(&buf).trim_end().to_string()));
                }
            }
        }
        let _ = tx.send(Msg::Eof(idx));
    });
    let err = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
    let e2 = err.clone();
    let mut se = child.stderr.take().unwrap();
    std::thread::spawn(move || {
        use std::io::Read;
        let mut b = [0u8; 4096];
        while let Ok(n) = se.read(&mut b) {
            if n == 0 {
                break;
            }
            let mut v = e2.lock().unwrap();
            v.extend_from_slice(&b[..n]);
            let l = v.len();
            if l > 16384 {
                v.drain(..l - 8192);
            }
        }
    });
    W { child, cur: None, since: Instant::now(), next: from, done: false, err }
}

/// What happened to a case that was run alone.
enum Solo {
    Fine,
    Viol(Vec<Value>),
    Crash(String, Value),
    Hang(Value),
    Memory(Value),
    Unclear(String),
}

fn solo(p: &Prop, tier: Tier, seed: u64, case: u64, limit: u64) -> Solo {
    let exe = std::env::current_exe().unwrap();
    let mut child = match Command::new(exe)
        .args(["single", p.id, tier.name(), &seed.to_string(), &case.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Solo::Unclear(e.to_string()),
    };
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        use std::io::Read;
        let mut v = Vec::new();
        let _ = so.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t2 = std::thread::spawn(move || {
        use std::io::Read;
        let mut v = Vec::new();
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let start = Instant::now();
    let files = |out: &str| out.lines().rev().find_map(|l| l.strip_prefix("F ")).and_then(|l| serde_json::from_str::<Value>(l).ok()).unwrap_or(json!([]));
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                let out = t1.join().unwrap_or_default();
                let err = t2.join().unwrap_or_default();
                let viol: Vec<Value> = out.lines().filter_map(|l| l.strip_prefix("V ")).filter_map(|l| serde_json::from_str(l).ok()).collect();
                if !viol.is_empty() {
                    return Solo::Viol(viol);
                }
                if st.code() == Some(0) || st.code() == Some(1) {
                    return Solo::Fine;
                }
                return classify_death(&describe(&st), &err, files(&out));
            }
            Ok(None) => {}
            Err(e) => return Solo::Unclear(e.to_string()),
        }
        if start.elapsed().as_secs() >= limit {
            let _ = child.kill();
            let _ = child.wait();
            return Solo::Hang(files(&t1.join().unwrap_or_default()));
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

fn describe(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(n) => format!("signal {}", n),
        None => format!("exit status {:?}", st.code()),
    }
}

fn classify_death(status: &str, err: &str, files: Value) -> Solo {
    let tail: String = err.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
    if err.contains("memory allocation of") {
        return Solo::Memory(files);
    }
    if status == "signal 9" || err.contains("failed to spawn thread") {
        return Solo::Unclear(format!("{} {}", status, tail));
    }
    if status.contains("signal") {
        return Solo::Crash(format!("{} {}", status, tail), files);
    }
    Solo::Unclear(format!("{} {}", status, tail))
}

fn known(id: &str) -> Vec<(String, String)> {
    let path = crate::paths::verif().join("known-findings.json");
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    let Ok(v) = serde_json::from_str::<Value>(&t) else { return vec![] };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == id)
                .map(|f| (f["key"].as_str().unwrap_or("").to_owned(), f["what"].as_str().unwrap_or("").to_owned()))
                .collect()
        })
        .unwrap_or_default()
}

pub fn check(p: &'static Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let secs = match std::env::var("TV_SECS").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(s) => s,
        None => (if tier == Tier::Quick { p.secs.0 } else { p.secs.1 }) as f64,
    };
    let n = p.workers;
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = (0..n).map(|i| spawn(p, tier, seed, i as u64, n as u64, secs, i, &tx)).collect();
    let mut evals = 0u64;
    let mut classes: HashSet<String> = HashSet::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut violations: Vec<Value> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut suspects: Vec<u64> = vec![];
    let mut cases = 0u64;
    let enough = 12;
    while ws.iter().any(|w| !w.done) {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(i, l)) => {
                if let Some(r) = l.strip_prefix("B ") {
                    let c = r.parse::<u64>().unwrap_or(0);
                    ws[i].cur = Some(c);
                    ws[i].next = c + n as u64;
                    ws[i].since = Instant::now();
                    cases += 1;
                } else if let Some(r) = l.strip_prefix("V ") {
                    if let Ok(v) = serde_json::from_str(r) {
                        violations.push(v);
                    }
                } else if let Some(r) = l.strip_prefix("S ").or_else(|| l.strip_prefix("P ")) {
                    if l.starts_with("S ") {
                        ws[i].cur = None;
                    }
                    if let Ok(v) = serde_json::from_str::<Value>(r) {
                        evals += v["evals"].as_u64().unwrap_or(0);
                        for c in v["classes"].as_array().into_iter().flatten() {
                            classes.insert(c.as_str().unwrap_or("").to_owned());
                        }
                        for (k, c) in v["counts"].as_object().into_iter().flatten() {
                            *counts.entry(k.clone()).or_insert(0) += c.as_u64().unwrap_or(0);
                        }
                        for s in v["samples"].as_array().into_iter().flatten() {
                            if samples.len() < 4 && !samples.contains(s) {
                                samples.push(s.clone());
                            }
                        }
                    }
                }
            }
            Ok(Msg::Eof(i)) => {
                let st = ws[i].child.wait();
                if let Some(c) = ws[i].cur {
                    // died inside a case (a finished worker clears `cur`)
                    suspects.push(c);
                    let left = secs - t0.elapsed().as_secs_f64();
                    let err = String::from_utf8_lossy(&ws[i].err.lock().unwrap()).into_owned();
                    *counts.entry("worker_deaths".into()).or_insert(0) += 1;
                    if std::env::var("TV_DEBUG").is_ok() {
                        eprintln!("worker died in case {}: {:?} {}", c, st, err);
                    }
                    if left > 1.0 && suspects.len() < 6 {
                        let next = ws[i].next;
                        ws[i] = spawn(p, tier, seed, next, n as u64, left, i, &tx);
                        continue;
                    }
                }
                ws[i].done = true;
            }
            Err(_) => {}
        }
        for i in 0..n {
            if ws[i].done {
                continue;
            }
            if let Some(c) = ws[i].cur {
                if ws[i].since.elapsed().as_secs() >= p.stall {
                    // kill; the reader thread reports the end of the stream and
                    // the case becomes a suspect
                    let _ = ws[i].child.kill();
                    ws[i].since = Instant::now();
                    *counts.entry("stalls".into()).or_insert(0) += 1;
                    let _ = c;
                }
            }
        }
        if violations.len() >= enough {
            for w in ws.iter_mut() {
                let _ = w.child.kill();
                w.done = true;
            }
            break;
        }
    }
    // decide what the cases that killed a worker mean, running each alone
    for c in suspects.iter().take(3) {
        match solo(p, tier, seed, *c, p.stall * 2) {
            Solo::Fine => inconclusive.push(format!("case {} failed among others but not alone", c)),
            Solo::Viol(v) => violations.extend(v),
            Solo::Crash(why, files) => {
                if p.crash {
                    violations.push(json!({"case": c, "key": "process crash", "detail": why, "files": files}));
                } else {
                    inconclusive.push(format!("case {} crashed: {}", c, why));
                }
            }
            Solo::Hang(files) => {
                if p.hang {
                    violations.push(json!({"case": c, "key": "no answer", "detail": format!("no answer within {} s (a typical case takes milliseconds)", p.stall * 2), "files": files}));
                } else {
                    inconclusive.push(format!("case {} gave no answer in time", c));
                }
            }
            Solo::Memory(files) => {
                if p.hang {
                    violations.push(json!({"case": c, "key": "no answer", "detail": "memory exhausted (a typical case needs a few megabytes)", "files": files}));
                } else {
                    inconclusive.push(format!("case {} ran out of memory", c));
                }
            }
            Solo::Unclear(why) => inconclusive.push(format!("case {}: {}", c, why)),
        }
    }
    let listed = known(p.id);
    let mut hit: HashSet<usize> = HashSet::new();
    let mut fresh: Vec<Value> = vec![];
    for v in violations {
        let key = v["key"].as_str().unwrap_or("");
        match listed.iter().position(|(k, _)| k == key) {
            Some(i) => {
                hit.insert(i);
            }
            None => fresh.push(v),
        }
    }
    for (i, (_, what)) in listed.iter().enumerate() {
        if hit.contains(&i) {
            println!("KNOWN-FINDING: property={} {}", p.id, what);
        }
    }
    let dir = crate::paths::verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut seen_keys: HashSet<String> = HashSet::new();
    let mut reported = vec![];
    for v in &fresh {
        let key = v["key"].as_str().unwrap_or("").to_owned();
        if !seen_keys.insert(key.clone()) || reported.len() >= 5 {
            continue;
        }
        let path = dir.join(format!("{}-{}-{}.json", p.id, seed, v["case"]));
        let body = json!({"property": p.id, "tier": tier.name(), "seed": seed, "case": v["case"], "key": key, "detail": v["detail"], "files": v["files"],
            "replay": format!("/verif/run.sh replay {}", path.display())});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        println!("  {}", key);
        for l in v["detail"].as_str().unwrap_or("").lines().take(12) {
            println!("    {}", l.chars().take(300).collect::<String>());
        }
        reported.push(body);
    }
    let coverage_inc = inconclusive.clone();
    let mut coverage = json!({
        "evaluations": evals,
        "distinct_nontrivial": classes.len(),
        "rule": p.rule,
        "samples": samples,
        "cases": cases,
        "observed": counts,
        "inconclusive": inconclusive,
    });
    if fresh.is_empty() && evals == 0 {
        coverage["note"] = json!("nothing was observed: no verdict");
    }
    let ev = json!({
        "property": p.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "wall_s": (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        "violations": fresh.len(),
        "assumptions": p.assumptions,
    });
    let edir = crate::paths::verif().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!("{}: {} cases, {} evaluations, {} distinct, {} violations, {} inconclusive, {:.1} s", p.id, cases, evals, classes.len(), fresh.len(), inconclusive.len(), t0.elapsed().as_secs_f64());
    if !fresh.is_empty() {
        1
    } else if evals == 0 {
        eprintln!("nothing observed {:?}", coverage_inc);
        2
    } else {
        0
    }
}
