//! Drives the code under test in process, with panics captured.
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
pub use ticc::{CompilationUnit, CompleteUnit, Diagnostic, ImportError, InterpretError, ModuleResolver, Options, Pos, Runner, Severity, Span, Token, TokenKind};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static GUARDED: RefCell<u32> = RefCell::new(0);
}

/// Panics inside `guard` are captured silently; others are printed.
pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let guarded = GUARDED.with(|g| *g.borrow() > 0);
        if !guarded {
            default(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit("repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() -= 1);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub struct MapResolver {
    pub map: HashMap<String, CompleteUnit>,
}

impl ModuleResolver for MapResolver {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        self.map.get(name).cloned().ok_or(ImportError::DoesNotExist)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Diag {
    pub start: usize,
    pub end: usize,
    pub error: bool,
    pub message: String,
}

pub fn diags(u: &mut CompilationUnit) -> Vec<Diag> {
    u.diagnostics()
        .map(|d| Diag { start: d.span.start().source_pos(), end: d.span.end().source_pos(), error: d.severity == Severity::Error, message: d.message })
        .collect()
}

pub fn opts(optimize: bool) -> Options {
    Options { verify: true, optimize }
}

/// Compiles modules in dependency order; returns the units of the main module
/// plus the diagnostics of every module.  Must run inside `guard`.
pub fn compile(sources: &[(String, String)], o: Options) -> (CompilationUnit, Vec<Vec<Diag>>) {
    let mut map: HashMap<String, CompleteUnit> = HashMap::new();
    let mut all = vec![];
    for (i, (path, text)) in sources.iter().enumerate() {
        let mut u = CompilationUnit::new(text, o, Arc::new(MapResolver { map: map.clone() }));
        all.push(diags(&mut u));
        if i + 1 == sources.len() {
            return (u, all);
        }
        map.insert(path.clone(), u.complete());
    }
    unreachable!()
}

/// A unit for the last module that has not been queried yet.
pub fn fresh_main(sources: &[(String, String)], o: Options) -> CompilationUnit {
    let mut map: HashMap<String, CompleteUnit> = HashMap::new();
    for (i, (path, text)) in sources.iter().enumerate() {
        let u = CompilationUnit::new(text, o, Arc::new(MapResolver { map: map.clone() }));
        if i + 1 == sources.len() {
            return u;
        }
        map.insert(path.clone(), u.complete());
    }
    unreachable!()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Values(String),
    Trap(String),
    Panic(String),
}

pub const RUNNERS: [Runner; 3] = [Runner::Lambda, Runner::Bytecode, Runner::Treewalk];

pub fn run(u: &mut CompilationUnit, r: Runner) -> Out {
    match guard(|| u.interpret(r)) {
        Ok(Ok(s)) => Out::Values(s),
        Ok(Err(t)) => Out::Trap(t.message),
        Err(p) => Out::Panic(p),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MainOut {
    Bytes(Vec<u8>),
    Trap(String),
    NoMain,
    InvalidMain,
    Panic(String),
}

pub fn run_main(u: &mut CompilationUnit, r: Runner, input: &[u8]) -> MainOut {
    match guard(|| u.interpret_main(r, input)) {
        Ok(Ok(s)) => MainOut::Bytes(s),
        Ok(Err(InterpretError::Trap(t))) => MainOut::Trap(t.message),
        Ok(Err(InterpretError::NoMain)) => MainOut::NoMain,
        Ok(Err(InterpretError::InvalidMain)) => MainOut::InvalidMain,
        Err(p) => MainOut::Panic(p),
    }
}
