//! Drives the language server binary over stdio and judges what it says.
use crate::cut::{self, CompilationUnit, CompleteUnit, ImportError, ModuleResolver};
use crate::driver::Ctx;
use crate::gen::Cfg;
use crate::lang::*;
use crate::mutate;
use crate::print::{FANCY, MILD};
use crate::rng::Rng;
use crate::util::{print_all, shorten, well_typed};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

const ANSWER: Duration = Duration::from_secs(25);

// ---- the client ---------------------------------------------------------------

pub struct Server {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: mpsc::Receiver<Result<Value, String>>,
    err: Arc<Mutex<String>>,
    next: i64,
    waiting: BTreeSet<String>,
    answered: BTreeSet<String>,
    pub published: HashMap<String, Vec<Value>>,
    pub publishes: u64,
    pub capabilities: Value,
}

pub type F<T> = Result<T, String>;

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Server {
    pub fn start() -> F<Server> {
        let mut child = Command::new(crate::paths::bins().join("ticc-lsp"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .env("RUST_BACKTRACE", "0")
            .spawn()
            .expect("cannot start ticc-lsp");
        let stdin = child.stdin.take();
        let mut out = BufReader::new(child.stdout.take().unwrap());
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || loop {
            let mut len = None;
            loop {
                let mut line = String::new();
                match out.read_line(&mut line) {
                    Ok(0) | Err(_) => return,
                    Ok(_) => {}
                }
                let l = line.trim_end();
                if l.is_empty() {
                    break;
                }
                if let Some(v) = l.strip_prefix("Content-Length:") {
                    len = v.trim().parse::<usize>().ok();
                } else if !l.starts_with("Content-") {
                    let _ = tx.send(Err(format!("bytes outside of messages: {:?}", l)));
                    return;
                }
            }
            let Some(len) = len else {
                let _ = tx.send(Err("message without length".into()));
                return;
            };
            let mut buf = vec![0; len];
            if out.read_exact(&mut buf).is_err() {
                return;
            }
            let m = serde_json::from_slice(&buf).map_err(|e| format!("malformed message: {}", e));
            if tx.send(m).is_err() {
                return;
            }
        });
        let mut e = child.stderr.take().unwrap();
        let err = Arc::new(Mutex::new(String::new()));
        let err2 = err.clone();
        std::thread::spawn(move || {
            let mut buf = [0; 4096];
            while let Ok(n) = e.read(&mut buf) {
                if n == 0 {
                    return;
                }
                let mut s = err2.lock().unwrap();
                s.push_str(&String::from_utf8_lossy(&buf[..n]));
                if s.len() > 6000 {
                    let mut at = s.len() - 3000;
                    while !s.is_char_boundary(at) {
                        at += 1;
                    }
                    *s = s[at..].to_owned();
                }
            }
        });
        let mut s = Server { child, stdin, rx, err, next: 1, waiting: BTreeSet::new(), answered: BTreeSet::new(), published: HashMap::new(), publishes: 0, capabilities: Value::Null };
        let r = s.request("initialize", json!({"processId": null, "rootUri": null, "capabilities": {}}))?;
        s.capabilities = r["result"]["capabilities"].clone();
        s.notify("initialized", json!({}))?;
        Ok(s)
    }

    fn dead(&mut self, what: &str) -> String {
        std::thread::sleep(Duration::from_millis(50));
        let status = match self.child.try_wait() {
            Ok(Some(s)) => format!("{}", s),
            _ => "still running".into(),
        };
        let err = self.err.lock().unwrap();
        let tail: Vec<&str> = err.lines().filter(|l| !l.starts_with("got ") && !l.starts_with("will resend")).collect();
        let tail = tail[tail.len().saturating_sub(6)..].join("\n");
        format!("{} (server: {})\n{}", what, status, tail)
    }

    pub fn send(&mut self, v: &Value) -> F<()> {
        let t = v.to_string();
        let m = format!("Content-Length: {}\r\n\r\n{}", t.len(), t);
        let ok = match &mut self.stdin {
            Some(i) => i.write_all(m.as_bytes()).and_then(|_| i.flush()).is_ok(),
            None => false,
        };
        if ok {
            Ok(())
        } else {
            Err(self.dead("the server does not read messages any more"))
        }
    }

    pub fn notify(&mut self, method: &str, params: Value) -> F<()> {
        self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}))
    }

    /// Sends a request without waiting for the response.
    pub fn ask(&mut self, method: &str, params: Value, string_id: bool) -> F<Value> {
        let id = if string_id { json!(format!("q{}", self.next)) } else { json!(self.next) };
        self.next += 1;
        self.waiting.insert(id.to_string());
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.send(&m)?;
        Ok(id)
    }

    fn take(&mut self, m: Value) -> F<Option<(String, Value)>> {
        if m.get("method").is_some() {
            if m.get("id").is_some() {
                return Err(format!("the server sent a request: {}", shorten(&m.to_string(), 200)));
            }
            if m["method"] == "textDocument/publishDiagnostics" {
                self.publishes += 1;
                let uri = m["params"]["uri"].as_str().unwrap_or("").to_owned();
                let ds = m["params"]["diagnostics"].as_array().cloned().unwrap_or_default();
                self.published.insert(uri, ds);
            }
            return Ok(None);
        }
        let id = m["id"].to_string();
        if self.answered.contains(&id) {
            return Err(format!("second response to request {}", id));
        }
        if !self.waiting.remove(&id) {
            return Err(format!("response to a request that was not made: {}", shorten(&m.to_string(), 200)));
        }
        if m.get("result").is_some() == m.get("error").is_some() {
            return Err(format!("a response must have a result or an error: {}", shorten(&m.to_string(), 200)));
        }
        self.answered.insert(id.clone());
        Ok(Some((id, m)))
    }

    pub fn wait(&mut self, id: &Value) -> F<Value> {
        let id = id.to_string();
        let end = Instant::now() + ANSWER;
        loop {
            match self.rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(Ok(m)) => {
                    if let Some((i, m)) = self.take(m)? {
                        if i == id {
                            return Ok(m);
                        }
                    }
                }
                Ok(Err(e)) => return Err(e),
                Err(mpsc::RecvTimeoutError::Timeout) => return Err(self.dead("no response")),
                Err(_) => return Err(self.dead("the connection ended before the response")),
            }
        }
    }

    pub fn request(&mut self, method: &str, params: Value) -> F<Value> {
        let id = self.ask(method, params, false)?;
        self.wait(&id)
    }

    /// After this, everything that earlier messages cause has arrived.
    pub fn barrier(&mut self) -> F<()> {
        self.request("tv/barrier", json!({})).map(|_| ())
    }

    /// Orderly end: every request is answered and the process exits with 0.
    pub fn finish(mut self, by_exit: bool) -> F<()> {
        if by_exit {
            let r = self.request("shutdown", Value::Null)?;
            if !r["error"].is_null() {
                return Err(format!("shutdown failed: {}", r));
            }
            self.notify("exit", Value::Null)?;
        }
        drop(self.stdin.take());
        let end = Instant::now() + ANSWER;
        loop {
            match self.rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(Ok(m)) => {
                    self.take(m)?;
                }
                Ok(Err(e)) => return Err(e),
                Err(mpsc::RecvTimeoutError::Timeout) => return Err(self.dead("the server does not end")),
                Err(_) => break,
            }
        }
        if !self.waiting.is_empty() {
            return Err(self.dead(&format!("no response to {:?}", self.waiting)));
        }
        while Instant::now() < end {
            if let Ok(Some(s)) = self.child.try_wait() {
                return if s.success() { Ok(()) } else { Err(self.dead("the server failed")) };
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        Err(self.dead("the server does not end"))
    }
}

// ---- positions ------------------------------------------------------------------

/// Byte offset to (line, UTF-16 column).
pub fn to_lsp(text: &str, off: usize) -> (u64, u64) {
    let before = &text[..off];
    let line = before.matches('\n').count() as u64;
    let start = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (line, before[start..].chars().map(|c| c.len_utf16() as u64).sum())
}

pub fn lsp_range(text: &str, a: usize, b: usize) -> Value {
    let ((al, ac), (bl, bc)) = (to_lsp(text, a), to_lsp(text, b));
    json!({"start": {"line": al, "character": ac}, "end": {"line": bl, "character": bc}})
}

/// (line, UTF-16 column) to byte offset; columns past the end of a line mean
/// its end, and columns inside a character mean its start.
pub fn to_off(text: &str, line: u64, ch: u64) -> usize {
    let mut start = 0;
    for _ in 0..line {
        match text[start..].find('\n') {
            Some(i) => start += i + 1,
            None => return text.len(),
        }
    }
    let mut col = 0;
    for (i, c) in text[start..].char_indices() {
        if c == '\n' {
            return start + i;
        }
        col += c.len_utf16() as u64;
        if col > ch {
            return start + i;
        }
    }
    text.len()
}

// ---- the model --------------------------------------------------------------------

/// What the server can know: texts of the editor, and files.
#[derive(Clone)]
pub struct World {
    pub root: String,
    pub disk: BTreeMap<String, Vec<u8>>,
    pub editor: BTreeMap<String, String>,
    pub open: BTreeSet<String>,
}

pub fn join(cur: &str, name: &str) -> Option<String> {
    if name.is_empty() || name.starts_with('/') || name.chars().any(|c| "#?:%\\".contains(c) || (c as u32) < 32) || name.starts_with(' ') || name.ends_with(' ') {
        return None;
    }
    let mut segs: Vec<&str> = cur.split('/').collect();
    segs.pop();
    let parts: Vec<&str> = name.split('/').collect();
    for (i, s) in parts.iter().enumerate() {
        match *s {
            "." | ".." | "" if i + 1 == parts.len() => return None,
            "" => return None,
            "." => {}
            ".." => {
                segs.pop()?;
            }
            s => segs.push(s),
        }
    }
    Some(segs.join("/"))
}

enum Content {
    Text(String),
    Missing,
    Bad(std::io::ErrorKind),
}

impl World {
    fn content(&self, rel: &str) -> Content {
        if let Some(t) = self.editor.get(rel) {
            return Content::Text(t.clone());
        }
        match self.disk.get(rel) {
            Some(b) => match String::from_utf8(b.clone()) {
                Ok(t) => Content::Text(t),
                Err(_) => Content::Bad(std::io::ErrorKind::InvalidData),
            },
            None if self.disk.keys().any(|k| k.starts_with(&format!("{}/", rel))) => Content::Bad(std::io::ErrorKind::IsADirectory),
            None if self.disk.keys().any(|k| rel.starts_with(&format!("{}/", k))) => Content::Bad(std::io::ErrorKind::NotADirectory),
            None => Content::Missing,
        }
    }

    pub fn uri(&self, rel: &str) -> String {
        let mut s = format!("file://{}/", self.root);
        for b in rel.bytes() {
            match b {
                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'/' | b'.' | b'-' | b'_' => s.push(b as char),
                _ => s.push_str(&format!("%{:02X}", b)),
            }
        }
        s
    }

    pub fn write(&self) {
        for (k, v) in &self.disk {
            let p = std::path::Path::new(&self.root).join(k);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, v).unwrap();
        }
    }

    /// A unit for an open file, and a flag that tells if something outside of
    /// this model mattered.
    pub fn unit(&self, rel: &str) -> (CompilationUnit, Arc<Shared>) {
        let shared = Arc::new(Shared { world: self.clone(), done: Mutex::new(HashMap::new()), odd: Mutex::new(None), lookups: Mutex::new(0) });
        shared.done.lock().unwrap().insert(rel.to_owned(), None);
        let u = CompilationUnit::new(&self.editor[rel], Default::default(), Arc::new(Res { cur: rel.to_owned(), shared: shared.clone() }));
        (u, shared)
    }

    pub fn files(&self) -> Vec<(String, String)> {
        let mut v: Vec<_> = self.editor.iter().map(|(k, t)| (format!("{}{}", k, if self.open.contains(k) { " (open)" } else { "" }), t.clone())).collect();
        v.extend(self.disk.iter().filter(|(k, _)| !self.editor.contains_key(*k)).map(|(k, t)| (format!("{} (disk)", k), String::from_utf8_lossy(t).into_owned())));
        v
    }
}

pub struct Shared {
    world: World,
    done: Mutex<HashMap<String, Option<CompleteUnit>>>,
    pub odd: Mutex<Option<&'static str>>,
    pub lookups: Mutex<u64>,
}

struct Res {
    cur: String,
    shared: Arc<Shared>,
}

impl ModuleResolver for Res {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        let odd = |w| *self.shared.odd.lock().unwrap() = Some(w);
        *self.shared.lookups.lock().unwrap() += 1;
        let Some(key) = join(&self.cur, name) else {
            odd("module path outside of the model");
            return Err(ImportError::DoesNotExist);
        };
        let text = match self.shared.world.content(&key) {
            Content::Text(t) => t,
            Content::Missing => return Err(ImportError::DoesNotExist),
            Content::Bad(k) => return Err(ImportError::Io(k.into())),
        };
        match self.shared.done.lock().unwrap().get(&key) {
            Some(Some(u)) => return Ok(u.clone()),
            Some(None) => {
                if key != self.cur {
                    // how much of a module in a cycle is seen is not specified
                    odd("import cycle");
                }
                return Err(ImportError::ImportCycle);
            }
            None => {}
        }
        self.shared.done.lock().unwrap().insert(key.clone(), None);
        let u = CompilationUnit::new(&text, Default::default(), Arc::new(Res { cur: key.clone(), shared: self.shared.clone() })).complete();
        self.shared.done.lock().unwrap().insert(key, Some(u.clone()));
        Ok(u)
    }
}

// ---- scratch ----------------------------------------------------------------------

pub struct Scratch(pub std::path::PathBuf);

impl Scratch {
    pub fn new(ctx: &Ctx) -> Scratch {
        let d = std::env::temp_dir().join(format!("tv-{}-{}", std::process::id(), ctx.case));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d.canonicalize().unwrap())
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---- projects as files ---------------------------------------------------------------

pub fn file_of(path: &str) -> String {
    let p = path.strip_prefix("./").unwrap_or(path);
    if p == "main" || p.len() % 2 == 0 { format!("{}.tic", p) } else { p.to_owned() }
}

/// How `from` spells the path of `to`.
pub fn spell(from: &str, to: &str, rng: &mut Rng, dirs: &[String]) -> String {
    let a: Vec<&str> = from.split('/').collect();
    let b: Vec<&str> = to.split('/').collect();
    let (ad, bd) = (&a[..a.len() - 1], &b[..b.len() - 1]);
    let mut k = 0;
    while k < ad.len() && k < bd.len() && ad[k] == bd[k] {
        k += 1;
    }
    // going up further than needed is another spelling
    if k > 0 && rng.chance(25) {
        k -= 1;
    }
    let mut out = vec![];
    if rng.chance(20) {
        out.push(".".to_owned());
    }
    for _ in k..ad.len() {
        out.push("..".to_owned());
    }
    if k == 0 && rng.chance(15) && !dirs.is_empty() {
        // through an existing directory
        let d = rng.pick(dirs).clone();
        let n = d.split('/').count();
        out.push(d);
        for _ in 0..n {
            out.push("..".to_owned());
        }
    }
    for s in &b[k..] {
        out.push(s.to_string());
        if rng.chance(5) && s != b.last().unwrap() {
            out.push(".".into());
        }
    }
    out.join("/")
}

/// The texts of a project laid out in files.
pub fn texts(p: &Project, rng: &mut Rng, style: crate::print::Style) -> Vec<(String, String)> {
    let mut q = p.clone();
    let known: Vec<String> = p.modules.iter().map(|m| m.path.clone()).collect();
    let mut dirs: Vec<String> = known.iter().filter_map(|k| file_of(k).rsplit_once('/').map(|(d, _)| d.to_owned())).collect();
    dirs.sort();
    dirs.dedup();
    for m in &mut q.modules {
        let from = file_of(&m.path);
        for i in &mut m.items {
            if let Item::Import(i) = i {
                if i.path.starts_with("std/") {
                    continue;
                }
                i.path = spell(&from, &file_of(&i.path), rng, &dirs);
            }
        }
    }
    let (_, srcs) = print_all(&q, rng, style);
    srcs.into_iter().map(|(k, t)| (file_of(&k), t)).collect()
}

// ---- judging -------------------------------------------------------------------------------

fn canon_diag(d: &Value) -> String {
    format!("{} {} {} {}", d["range"], d["severity"], d["source"], d["message"])
}

/// The last published diagnostics of every open file are those of its text.
fn judge_diags(ctx: &mut Ctx, s: &Server, w: &World, step: &str) -> bool {
    let mut good = true;
    for rel in &w.open {
        let uri = w.uri(rel);
        let Some((want, odd)) = expected_diags(ctx, w, rel) else { continue };
        if let Some(o) = odd {
            ctx.count(&format!("not judged: {}", o), 1);
            continue;
        }
        ctx.eval();
        ctx.count("diagnostics_expected", want.len() as u64);
        let Some(got) = s.published.get(&uri) else {
            ctx.fail("no diagnostics published", format!("{} after {}", rel, step), &w.files());
            good = false;
            continue;
        };
        let mut got: Vec<String> = got.iter().map(canon_diag).collect();
        got.sort();
        if got != want {
            let miss: Vec<_> = want.iter().filter(|d| !got.contains(d)).collect();
            let extra: Vec<_> = got.iter().filter(|d| !want.contains(d)).collect();
            ctx.fail("published diagnostics differ from those of the current text", format!("{} after {}\nmissing {:?}\nextra {:?}\ncounts {} {}", rel, step, miss, extra, want.len(), got.len()), &w.files());
            good = false;
        }
    }
    for (uri, ds) in &s.published {
        let open = w.open.iter().any(|r| &w.uri(r) == uri);
        if !open && !ds.is_empty() {
            ctx.fail("diagnostics of a closed file remain", format!("{} after {}", uri, step), &w.files());
            good = false;
        }
    }
    good
}

fn expected_diags(ctx: &mut Ctx, w: &World, rel: &str) -> Option<(Vec<String>, Option<&'static str>)> {
    let (mut u, sh) = w.unit(rel);
    let text = &w.editor[rel];
    let ds = match cut::guard(|| cut::diags(&mut u)) {
        Ok(d) => d,
        Err(_) => {
            ctx.count("skipped_panic_in_front_end", 1);
            return None;
        }
    };
    let mut want: Vec<String> = ds
        .iter()
        .map(|d| canon_diag(&json!({"range": lsp_range(text, d.start, d.end), "severity": if d.error { 1 } else { 2 }, "source": "ticc", "message": d.message})))
        .collect();
    want.sort();
    let odd = *sh.odd.lock().unwrap();
    Some((want, odd))
}

const REQUESTS: [&str; 6] = ["textDocument/hover", "textDocument/definition", "textDocument/declaration", "textDocument/references", "textDocument/completion", "textDocument/semanticTokens/full"];

fn params(w: &World, rel: &str, method: &str, line: u64, ch: u64, decl: bool) -> Value {
    let td = json!({"uri": w.uri(rel)});
    if method.contains("semanticTokens") {
        return json!({"textDocument": td});
    }
    let mut v = json!({"textDocument": td, "position": {"line": line, "character": ch}});
    if method.ends_with("references") {
        v["context"] = json!({"includeDeclaration": decl});
    }
    v
}

/// What the library says, in the terms of the protocol.
fn expected(u: &mut CompilationUnit, w: &World, rel: &str, method: &str, off: usize, decl: bool, legend: &[String]) -> Vec<String> {
    let text = &w.editor[rel];
    let uri = w.uri(rel);
    let pos = cut::Pos::new(off as u32);
    let loc = |s: cut::Span| json!({"uri": uri, "range": lsp_range(text, s.start().source_pos(), s.end().source_pos())}).to_string();
    let mut out = match method {
        "textDocument/hover" => match u.info(pos) {
            Some(i) => vec![i.doc, lsp_range(text, i.span.start().source_pos(), i.span.end().source_pos()).to_string()],
            None => vec!["null".into()],
        },
        "textDocument/definition" | "textDocument/declaration" => match u.find_definition(pos) {
            Some(s) => vec![loc(s)],
            None => vec!["null".into()],
        },
        "textDocument/references" => match u.find_references(pos) {
            Some(rs) => {
                let mut v: Vec<_> = rs.into_iter().map(loc).collect();
                if decl {
                    if let Some(d) = u.find_definition(pos) {
                        v.push(loc(d));
                    }
                }
                v
            }
            None => vec!["null".into()],
        },
        "textDocument/completion" => match u.completions(pos) {
            Some(c) => c.into_iter().map(|c| c.name).collect(),
            None => vec!["null".into()],
        },
        _ => {
            let toks: Vec<_> = u.tokens().collect();
            toks.into_iter()
                .map(|t| {
                    let (a, b) = (t.span.start().source_pos(), t.span.end().source_pos());
                    let (l, c) = to_lsp(text, a);
                    let n: usize = text[a..b].encode_utf16().count();
                    format!("{:06}:{:06}+{} {}", l, c, n, legend.iter().position(|x| x == kind(t.kind)).map(|_| kind(t.kind)).unwrap_or("?"))
                })
                .collect()
        }
    };
    if !method.ends_with("hover") {
        out.sort();
    }
    out
}

fn kind(k: cut::TokenKind) -> &'static str {
    use cut::TokenKind::*;
    match k {
        Keyword => "keyword",
        Type | Ctor => "type",
        TypeVariable => "typeParameter",
        Value => "variable",
        Function => "function",
        Operator => "operator",
        Punctuation => "punctuation",
        Number => "number",
        String => "string",
        Comment => "comment",
    }
}

fn obtained(r: &Value, method: &str, legend: &[String]) -> Result<Vec<String>, String> {
    if r.get("error").map_or(false, |e| !e.is_null()) {
        return Err(format!("error response {}", r["error"]));
    }
    let v = &r["result"];
    let locs = |v: &Value| -> Result<Vec<String>, String> {
        let one = |v: &Value| {
            if v["uri"].is_string() && v["range"].is_object() {
                Ok(json!({"uri": v["uri"], "range": v["range"]}).to_string())
            } else {
                Err(format!("not a location: {}", v))
            }
        };
        match v {
            Value::Null => Ok(vec!["null".into()]),
            Value::Array(a) => a.iter().map(one).collect(),
            v => Ok(vec![one(v)?]),
        }
    };
    let mut out = match method {
        "textDocument/hover" => match v {
            Value::Null => vec!["null".into()],
            v => {
                let c = &v["contents"];
                let c = if c.is_array() && c.as_array().unwrap().len() == 1 { &c[0] } else { c };
                let t = c.as_str().or(c["value"].as_str()).unwrap_or("no contents");
                vec![t.to_owned(), v["range"].to_string()]
            }
        },
        "textDocument/definition" | "textDocument/declaration" | "textDocument/references" => locs(v)?,
        "textDocument/completion" => match v {
            Value::Null => vec!["null".into()],
            v => {
                let items = if v.is_array() { v } else { &v["items"] };
                items.as_array().ok_or("no items")?.iter().map(|i| i["label"].as_str().unwrap_or("no label").to_owned()).collect()
            }
        },
        _ => {
            let d: Vec<u64> = v["data"].as_array().ok_or("no token data")?.iter().filter_map(|x| x.as_u64()).collect();
            if d.len() % 5 != 0 {
                return Err("token data is not made of groups of five".into());
            }
            let (mut line, mut col) = (0, 0);
            let mut out = vec![];
            for t in d.chunks(5) {
                line += t[0];
                col = if t[0] == 0 { col + t[1] } else { t[1] };
                out.push(format!("{:06}:{:06}+{} {}", line, col, t[2], legend.get(t[3] as usize).map(|s| s.as_str()).unwrap_or("outside of the legend")));
            }
            out
        }
    };
    if !method.ends_with("hover") {
        out.sort();
    }
    Ok(out)
}

pub fn legend(s: &Server) -> Vec<String> {
    s.capabilities["semanticTokensProvider"]["legend"]["tokenTypes"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap_or("").to_owned()).collect()).unwrap_or_default()
}

/// Where requests are made: at interesting places and at random ones.
fn places(text: &str, rng: &mut Rng, n: usize) -> Vec<(u64, u64)> {
    let lines: Vec<&str> = text.split('\n').collect();
    let mut out = vec![];
    let words: Vec<(usize, usize)> = crate::props_front::lex(text).iter().map(|t| (t.1, t.2)).collect();
    for _ in 0..n {
        if !words.is_empty() && rng.chance(70) {
            let (a, b) = *rng.pick(&words);
            let mut off = match rng.below(4) {
                0 => a,
                1 => b,
                _ => rng.range(a, b),
            };
            while !text.is_char_boundary(off) {
                off -= 1;
            }
            let (l, c) = to_lsp(text, off);
            // sometimes in the middle of a surrogate pair
            out.push((l, if rng.chance(10) { c + 1 } else { c }));
        } else {
            let l = rng.below(lines.len() + 2);
            let len = lines.get(l).map(|s| s.encode_utf16().count()).unwrap_or(0);
            out.push((l as u64, if rng.chance(10) { len as u64 + *rng.pick(&[0u64, 1, 2, 1000, u32::MAX as u64 / 2]) } else { rng.below(len + 2) as u64 }));
        }
    }
    out
}

/// The line ends with `\r`, and the place is beyond it.
fn past_cr(text: &str, line: u64, ch: u64) -> bool {
    match text.split('\n').nth(line as usize) {
        Some(l) => l.ends_with('\r') && ch >= l.encode_utf16().count() as u64,
        None => false,
    }
}

fn judge_requests(ctx: &mut Ctx, s: &mut Server, w: &World, rel: &str, rng: &mut Rng, n: usize, label: &str) -> F<bool> {
    let text = w.editor[rel].clone();
    let leg = legend(s);
    let (mut u, sh) = w.unit(rel);
    let pl = places(&text, rng, n);
    for (k, (line, ch)) in pl.into_iter().enumerate() {
        if past_cr(&text, line, ch) {
            continue;
        }
        let method = if k == 0 { REQUESTS[5] } else { *rng.pick(&REQUESTS[..5]) };
        let decl = rng.chance(50);
        let off = to_off(&text, line, ch);
        let want = match cut::guard(|| expected(&mut u, w, rel, method, off, decl, &leg)) {
            Ok(v) => v,
            Err(_) => {
                // the subject of another property; the unit may be damaged now
                ctx.count("skipped_panic_in_front_end", 1);
                return Ok(true);
            }
        };
        if sh.odd.lock().unwrap().is_some() {
            ctx.count("not judged: import cycle or odd path", 1);
            return Ok(true);
        }
        ctx.eval();
        let r = s.request(method, params(w, rel, method, line, ch, decl))?;
        let got = obtained(&r, method, &leg);
        ctx.count(&format!("request {}", method), 1);
        if got.as_ref() != Ok(&want) {
            let key = format!("{}: answer of {} differs from the library", label, method);
            let diff = match &got {
                Ok(g) => format!("missing {:?}\nextra {:?}", want.iter().filter(|x| !g.contains(x)).collect::<Vec<_>>(), g.iter().filter(|x| !want.contains(x)).collect::<Vec<_>>()),
                Err(e) => e.clone(),
            };
            ctx.fail(&key, format!("{} line {} character {} (byte {})\n{}\nexpected {}\n     got {}", rel, line, ch, off, shorten(&diff, 600), shorten(&format!("{:?}", want), 400), shorten(&format!("{:?}", got), 400)), &w.files());
            return Ok(false);
        }
        if want != ["null".to_string()] {
            ctx.class(&format!("{} {} {:?}", method, line % 7, want));
        }
    }
    Ok(true)
}

fn report(ctx: &mut Ctx, r: F<()>, w: &World, log: &[String]) {
    if let Err(e) = r {
        let key = e.lines().next().unwrap_or("").to_owned();
        ctx.fail(&key, format!("{}\nlast steps:\n  {}", e, log[log.len().saturating_sub(25)..].join("\n  ")), &w.files());
    }
}

// ---- histories ----------------------------------------------------------------------------------

/// Files and the texts they may get.
struct Play {
    w: World,
    variants: BTreeMap<String, Vec<String>>,
    log: Vec<String>,
    _scratch: Scratch,
}

fn unicode(r: &mut Rng) -> String {
    let n = r.range(1, 12);
    (0..n).map(|_| *r.pick(&['a', ' ', 'ž', 'é', '漢', '🦀', '𝕏', '\u{301}', '\u{200d}', '\u{feff}', '𐍈', '-', '"', '0'])).collect()
}

/// Comments and strings with characters of all sizes.
fn sprinkle(text: &str, r: &mut Rng) -> String {
    let mut out = String::new();
    let toks = crate::props_front::lex(text);
    let mut at = 0;
    for t in &toks {
        out.push_str(&text[at..t.1]);
        if r.chance(4) {
            out.push_str(&format!(" -- {}\n", unicode(r).replace('\n', "")));
        }
        let tok = &text[t.1..t.2];
        if tok.len() >= 2 && tok.starts_with('"') && tok.ends_with('"') && r.chance(40) && !out.trim_end().ends_with("from") {
            let u = unicode(r).replace('"', "");
            out.push_str(&format!("{}{}\"", &tok[..tok.len() - 1], u));
        } else {
            out.push_str(tok);
        }
        at = t.2;
    }
    out.push_str(&text[at..]);
    if r.chance(20) {
        out = out.replace('\n', "\r\n");
    }
    out
}

fn play(ctx: &mut Ctx, r: &mut Rng, damage: u32, hostile: bool) -> Option<Play> {
    let mut cfg = Cfg::front();
    cfg.modules = (1, 4);
    cfg.budget = 35;
    cfg.items = (1, 5);
    let prog = well_typed(r, &cfg, MILD)?;
    let scratch = Scratch::new(ctx);
    let style = if r.chance(50) { FANCY } else { MILD };
    let mut variants: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let base = texts(&prog.p, r, style);
    for (k, t) in &base {
        variants.entry(k.clone()).or_default().push(t.clone());
    }
    for _ in 0..r.range(1, 4) {
        let mut q = prog.p.clone();
        for _ in 0..r.range(1, 3) {
            if r.chance(60) {
                let k = *r.pick(mutate::SCOPE_EDITS);
                mutate::mutate_kind(&mut q, r, k);
            } else {
                mutate::mutate(&mut q, r);
            }
        }
        for (k, t) in texts(&q, r, style) {
            variants.entry(k).or_default().push(t);
        }
    }
    let names: Vec<String> = variants.keys().cloned().collect();
    for k in &names {
        let vs = variants.get_mut(k).unwrap();
        let n = vs.len();
        for i in 0..n {
            if r.chance(damage) {
                let t = if r.chance(50) { crate::textgen::damage(&vs[i], r) } else { crate::textgen::shuffle_tokens(&vs[i], r) };
                vs.push(t);
            }
            if r.chance(30) {
                let t = sprinkle(&vs[i], r);
                vs.push(t);
            }
            if r.chance(15) {
                // a module that may not exist, imported more than once
                let name = *r.pick(&["missing.tic", "late.tic", "lib/late", "main.tic", "lib", "main.tic/x"]);
                let to = spell(k, name, r, &[]);
                let imp = format!("import m from \"{}\";\n", to);
                vs.push(format!("{}{}{}", imp, if r.chance(50) { imp.replace(" m ", " m2 ") } else { String::new() }, vs[i]));
            }
        }
        if hostile {
            vs.push(crate::textgen::text(r));
            vs.push(r.pick(&["", "\r", "\u{feff}", "\n", "\"", "--", "let", "\u{0}", "🦀", "let x", "\r\n\r\n", "import"]).to_string());
        }
    }
    variants.insert("late.tic".into(), vec!["export let x : int = 1;\n".into(), "export type T = export A;\n".into(), String::new()]);
    variants.insert("lib/late".into(), vec!["import m from \"../late.tic\"; export let y : int = m.x;\n".into()]);
    let mut disk = BTreeMap::new();
    for (k, t) in &base {
        if r.chance(50) {
            disk.insert(k.clone(), t.clone().into_bytes());
        }
    }
    if r.chance(10) {
        disk.insert("late.tic".to_owned(), b"let \xff\xfe".to_vec());
    }
    let w = World { root: scratch.0.to_str().unwrap().to_owned(), disk, editor: BTreeMap::new(), open: BTreeSet::new() };
    w.write();
    Some(Play { w, variants, log: vec![], _scratch: scratch })
}

/// A small edit, like those that typing makes.
fn tweak(text: &str, r: &mut Rng) -> String {
    let at = |r: &mut Rng| {
        let mut i = r.below(text.len() + 1);
        while !text.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    let insert = |i: usize, s: &str| format!("{}{}{}", &text[..i], s, &text[i..]);
    match r.below(9) {
        0 => format!("{}{}", text, r.pick(&[" ", "   ", "\n", "\r\n", "\n\n", " \n ", "\t", "."])),
        1 => format!("{}{}", r.pick(&[" ", "\n", "\r\n", "-- x\n", "\u{1f600}", "--\u{e9}\n"]), text),
        2 => text.trim_end().to_owned(),
        3 => text.trim_start().to_owned(),
        4 => {
            let i = at(r);
            insert(i, *r.pick(&[" ", "\n", "a", "1", "-- ", "\"", "(", ";", "\u{e9}", "\u{1f600}"]))
        }
        5 => {
            // one character less
            let i = at(r);
            match text[i..].chars().next() {
                Some(c) => format!("{}{}", &text[..i], &text[i + c.len_utf8()..]),
                None => text.to_owned(),
            }
        }
        6 => {
            // all white space doubled, or the case of a letter changed
            if r.chance(50) {
                text.replace(' ', "  ")
            } else {
                let i = at(r);
                text.char_indices().map(|(k, c)| if k == i { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
            }
        }
        7 => {
            // a line moved to the end or written twice
            let mut ls: Vec<&str> = text.split_inclusive('\n').collect();
            if ls.is_empty() {
                return text.to_owned();
            }
            let k = r.below(ls.len());
            if r.chance(50) {
                let l = ls.remove(k);
                ls.push(l);
            } else {
                let l = ls[k];
                ls.insert(k, l);
            }
            ls.concat()
        }
        _ => text.to_owned(),
    }
}

impl Play {
    fn log(&mut self, s: String) {
        self.log.push(s);
    }

    fn closed(&self) -> Vec<String> {
        self.variants.keys().filter(|k| !self.w.open.contains(*k)).cloned().collect()
    }

    fn open(&mut self, s: &mut Server, r: &mut Rng, rel: &str) -> F<()> {
        let text = r.pick(&self.variants[rel]).clone();
        self.log(format!("open {}", rel));
        s.notify("textDocument/didOpen", json!({"textDocument": {"uri": self.w.uri(rel), "languageId": "tic", "version": 1, "text": text}}))?;
        self.w.editor.insert(rel.to_owned(), text);
        self.w.open.insert(rel.to_owned());
        Ok(())
    }

    fn change(&mut self, s: &mut Server, r: &mut Rng, rel: &str) -> F<()> {
        let n = if r.chance(20) { 2 } else { 1 };
        let mut cs = vec![];
        for _ in 0..n {
            let t = if r.chance(45) {
                tweak(&self.w.editor[rel], r)
            } else {
                r.pick(&self.variants[rel]).clone()
            };
            self.w.editor.insert(rel.to_owned(), t.clone());
            cs.push(json!({"text": t}));
        }
        self.log(format!("change {} ({})", rel, n));
        s.notify("textDocument/didChange", json!({"textDocument": {"uri": self.w.uri(rel), "version": 2}, "contentChanges": cs}))
    }

    fn close(&mut self, s: &mut Server, rel: &str) -> F<()> {
        self.log(format!("close {}", rel));
        self.w.open.remove(rel);
        s.notify("textDocument/didClose", json!({"textDocument": {"uri": self.w.uri(rel)}}))
    }

    fn step(&mut self, s: &mut Server, r: &mut Rng) -> F<()> {
        let open: Vec<String> = self.w.open.iter().cloned().collect();
        let closed = self.closed();
        match r.below(10) {
            0..=2 if !closed.is_empty() => {
                let k = r.pick(&closed).clone();
                self.open(s, r, &k)
            }
            3 if !open.is_empty() => {
                let k = r.pick(&open).clone();
                self.close(s, &k)
            }
            _ if !open.is_empty() => {
                let k = r.pick(&open).clone();
                self.change(s, r, &k)
            }
            _ => {
                let k = r.pick(&closed).clone();
                self.open(s, r, &k)
            }
        }
    }
}

// ---- P26: positions -------------------------------------------------------------------------------

pub fn p26(ctx: &mut Ctx) {
    let mut r = ctx.rng("P26");
    let Some(mut pl) = play(ctx, &mut r, 30, false) else { return };
    // every text gets characters of several sizes
    let keys: Vec<String> = pl.variants.keys().cloned().collect();
    for k in keys {
        let vs: Vec<String> = pl.variants[&k].iter().map(|t| sprinkle(t, &mut r)).collect();
        pl.variants.insert(k, vs);
    }
    ctx.begin(&[("case".into(), format!("{:?}", pl.variants))]);
    let r0 = (|| -> F<()> {
        let mut s = Server::start()?;
        for _ in 0..r.range(1, 3) {
            let c = pl.closed();
            let k = r.pick(&c).clone();
            pl.open(&mut s, &mut r, &k)?;
            s.barrier()?;
            if !judge_diags(ctx, &s, &pl.w, "opening") {
                return Ok(());
            }
            if pl.w.editor[&k].chars().any(|c| c.len_utf8() != 1) {
                ctx.count("texts_with_wide_characters", 1);
            }
            if !judge_requests(ctx, &mut s, &pl.w, &k, &mut r, 40, "positions")? {
                return Ok(());
            }
        }
        s.finish(true)
    })();
    report(ctx, r0, &pl.w, &pl.log);
}

// ---- P27: one response per request, alive ------------------------------------------------------------

pub fn p27(ctx: &mut Ctx) {
    let mut r = ctx.rng("P27");
    let Some(mut pl) = play(ctx, &mut r, 60, true) else { return };
    ctx.begin(&[("case".into(), format!("{:?}", pl.variants))]);
    let mut kinds = BTreeSet::new();
    let r0 = (|| -> F<()> {
        let mut s = Server::start()?;
        let mut ids = vec![];
        for _ in 0..r.range(5, 40) {
            match r.below(14) {
                0..=4 => {
                    pl.step(&mut s, &mut r)?;
                    kinds.insert("edit");
                }
                5 => {
                    s.notify(r.pick(&["tv/unknown", "$/cancelRequest", "textDocument/didSave", "workspace/didChangeConfiguration", "$/setTrace"]), json!({"id": 1}))?;
                    kinds.insert("unknown notification");
                }
                6 => {
                    let m = *r.pick(&["tv/unknown", "textDocument/rename", "textDocument/codeAction", "workspace/symbol", "textDocument/formatting", "textDocument/semanticTokens/range"]);
                    pl.log(format!("unknown request {}", m));
                    let str_id = r.chance(30);
                    let id = s.ask(m, json!({"textDocument": {"uri": pl.w.uri("main.tic")}}), str_id)?;
                    ids.push((id, Some(true)));
                    kinds.insert("unknown request");
                }
                7 => {
                    // a change of a file that is not open
                    let c = pl.closed();
                    if let Some(k) = c.first() {
                        s.notify("textDocument/didChange", json!({"textDocument": {"uri": pl.w.uri(k), "version": 2}, "contentChanges": []}))?;
                    }
                    kinds.insert("empty change");
                }
                8 | 9 => {
                    // a file that is not open, or never was
                    let c = pl.closed();
                    let uri = match r.below(4) {
                        0 => "untitled:Untitled-1".to_owned(),
                        1 => "file:///nonexistent/dir/x.tic".to_owned(),
                        _ if !c.is_empty() => pl.w.uri(r.pick(&c)),
                        _ => "file:///x".to_owned(),
                    };
                    let m = *r.pick(&REQUESTS);
                    pl.log(format!("{} about {}", m, uri));
                    let mut p = params(&pl.w, "main.tic", m, r.below(5) as u64, r.below(30) as u64, true);
                    p["textDocument"]["uri"] = json!(uri);
                    let str_id = r.chance(30);
                    ids.push((s.ask(m, p, str_id)?, None));
                    kinds.insert("request about a file that is not open");
                }
                _ => {
                    let open: Vec<String> = pl.w.open.iter().cloned().collect();
                    if open.is_empty() {
                        continue;
                    }
                    let k = r.pick(&open).clone();
                    let text = pl.w.editor[&k].clone();
                    for (l, c) in places(&text, &mut r, 4) {
                        let m = *r.pick(&REQUESTS);
                        let p = params(&pl.w, &k, m, l, c, r.chance(50));
                        pl.log(format!("{} {} {}:{}", m, k, l, c));
                        ids.push((s.ask(m, p, false)?, Some(false)));
                        kinds.insert("request");
                    }
                }
            }
            if r.chance(30) {
                s.barrier()?;
            }
        }
        ctx.count("requests", ids.len() as u64);
        for (id, _) in &ids {
            if s.waiting.contains(&id.to_string()) {
                s.wait(id)?;
            }
            ctx.eval();
        }
        s.barrier()?;
        s.finish(r.chance(80))
    })();
    ctx.class(&format!("{:?} {}", kinds, pl.log.iter().map(|l| l.split(' ').next().unwrap_or("").chars().next().unwrap_or('?')).collect::<String>()));
    report(ctx, r0, &pl.w, &pl.log);
}

// ---- P28: diagnostics follow the texts --------------------------------------------------------------------

pub fn p28(ctx: &mut Ctx) {
    let mut r = ctx.rng("P28");
    let Some(mut pl) = play(ctx, &mut r, 15, false) else { return };
    ctx.begin(&[("case".into(), format!("{:?}", pl.variants))]);
    let r0 = (|| -> F<()> {
        let mut s = Server::start()?;
        let mut before = 0;
        for i in 0..r.range(3, 16) {
            pl.step(&mut s, &mut r)?;
            if r.chance(20) {
                // several edits may come before anything is read
                pl.step(&mut s, &mut r)?;
            }
            s.barrier()?;
            let step = format!("step {}: {}", i, pl.log.last().unwrap());
            if !judge_diags(ctx, &s, &pl.w, &step) {
                ctx.count("steps", i as u64);
                if let Some(v) = ctx.violations.last_mut() {
                    v.detail.push_str(&format!("\nhistory: {}", pl.log.join(", ")));
                }
                return Ok(());
            }
            if s.publishes > before + 1 {
                ctx.count("edits_that_republish_other_files", 1);
            }
            before = s.publishes;
            let sig: Vec<usize> = pl.w.open.iter().map(|k| s.published.get(&pl.w.uri(k)).map_or(0, |d| d.len())).collect();
            ctx.class(&format!("{} {:?} {}", pl.log.last().unwrap(), sig, pl.w.open.len()));
        }
        s.finish(true)
    })();
    report(ctx, r0, &pl.w, &pl.log);
}

// ---- P29: answers are about the current texts -----------------------------------------------------------------

pub fn p29(ctx: &mut Ctx) {
    let mut r = ctx.rng("P29");
    let Some(mut pl) = play(ctx, &mut r, 20, false) else { return };
    ctx.begin(&[("case".into(), format!("{:?}", pl.variants))]);
    let r0 = (|| -> F<()> {
        let mut s = Server::start()?;
        for _ in 0..r.range(3, 12) {
            pl.step(&mut s, &mut r)?;
            let open: Vec<String> = pl.w.open.iter().cloned().collect();
            if open.is_empty() {
                continue;
            }
            for _ in 0..2 {
                let k = r.pick(&open).clone();
                if !judge_requests(ctx, &mut s, &pl.w, &k, &mut r, 6, "histories")? {
                    if let Some(v) = ctx.violations.last_mut() {
                        v.detail.push_str(&format!("\nhistory: {}", pl.log.join(", ")));
                    }
                    return Ok(());
                }
            }
        }
        s.finish(true)
    })();
    report(ctx, r0, &pl.w, &pl.log);
}
