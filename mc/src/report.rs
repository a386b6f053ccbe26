//! Parallel task runner, evidence and counterexample reporting.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Violation {
    /// what is wrong, one line
    pub what: String,
    /// the failing history, program or schedule
    pub case: String,
    /// Rust source that shows it without the explorer (may be empty)
    pub repro: String,
}

impl Violation {
    pub fn new(what: impl Into<String>, case: impl Into<String>) -> Self {
        Violation { what: what.into(), case: case.into(), repro: String::new() }
    }
    pub fn repro(mut self, r: impl Into<String>) -> Self {
        self.repro = r.into();
        self
    }
}

#[derive(Default)]
pub struct Local {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub outcomes: std::collections::HashSet<u64>,
}

impl Local {
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f())
        }
    }
    /// Remembers a digest of an observed outcome (bounded).
    pub fn outcome(&mut self, bytes: &[u8]) {
        if self.outcomes.len() < 200_000 {
            let mut h = 0xcbf29ce484222325u64;
            for &b in bytes {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            self.outcomes.insert(h);
        }
    }
}

pub struct Check {
    pub id: String,
    level: &'static str,
    thorough: bool,
    seed: u64,
    start: Instant,
    cap: Duration,
    total: Mutex<Local>,
    sections: Mutex<Vec<(String, BTreeMap<&'static str, String>)>>,
    violation: Mutex<Option<(usize, Violation)>>,
    section_no: AtomicUsize,
    pub threads: usize,
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "(no message)".into())
}

thread_local! { static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) } }

static JOURNAL: OnceLock<Option<std::fs::File>> = OnceLock::new();

fn journal() -> Option<&'static std::fs::File> {
    JOURNAL
        .get_or_init(|| std::env::var_os("MC_JOURNAL").map(|p| std::fs::File::create(p).expect("journal")))
        .as_ref()
}

/// Runs one case on the code under test; a panic is turned into an error. With
/// `MC_JOURNAL` set the case is written down first, so that a crash or hang of
/// the whole process can be traced to it.
pub fn guard<R>(desc: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Result<R, Violation> {
    use std::os::unix::fs::FileExt;
    if let Some(j) = journal() {
        let d = desc();
        j.write_all_at(d.as_bytes(), 0).unwrap();
        j.set_len(d.len() as u64).unwrap();
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Some(j) = journal() {
        j.set_len(0).unwrap();
    }
    r.map_err(|e| Violation::new(format!("panic: {}", panic_text(&e)), desc()))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Check {
    pub fn start(id: &str, level: &'static str) -> Self {
        std::panic::set_hook(Box::new(|i| {
            let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
            // for those outside `guard`, of which run.py reports the last
            if std::thread::current().name() == Some("main") { eprintln!("panic at {at}: {i}") }
            PANIC_AT.with(|p| *p.borrow_mut() = at);
        }));
        let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
        let cap = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 620 } else { 120 });
        Check {
            id: id.to_string(),
            level,
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
            start: Instant::now(),
            cap: Duration::from_secs(cap),
            total: Mutex::default(),
            sections: Mutex::default(),
            violation: Mutex::default(),
            section_no: AtomicUsize::new(0),
            threads: if std::env::var_os("MC_JOURNAL").is_some() { 1 } else { 8 },
        }
    }

    pub fn thorough(&self) -> bool {
        self.thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    pub fn failed(&self) -> bool {
        self.violation.lock().unwrap().is_some()
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.cap
    }

    pub fn note(&self, section: &str, key: &'static str, val: impl std::fmt::Display) {
        let mut s = self.sections.lock().unwrap();
        if let Some(e) = s.iter_mut().find(|e| e.0 == section) {
            e.1.insert(key, val.to_string());
        } else {
            s.push((section.into(), BTreeMap::from([(key, val.to_string())])));
        }
    }

    pub fn violate(&self, order: usize, v: Violation) {
        let mut g = self.violation.lock().unwrap();
        if g.as_ref().map_or(true, |(o, _)| order < *o) {
            *g = Some((order, v));
        }
    }

    /// Runs tasks `0..n` on all threads. The reported violation is the one of
    /// the lowest-numbered failing task.
    pub fn par(
        &self,
        section: &str,
        n: usize,
        f: impl Fn(usize, &mut Local) -> Result<(), Violation> + Sync,
    ) {
        if self.failed() {
            return;
        }
        let base = self.section_no.fetch_add(1, SeqCst) * 1_000_000_000;
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let before = self.start.elapsed();
        let locals = Mutex::new(Vec::new());
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, || {
                        let mut local = Local::default();
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= n || stop.load(SeqCst) || self.out_of_time() {
                                break;
                            }
                            let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut local)));
                            match r {
                                Ok(Ok(())) => { done.fetch_add(1, SeqCst); }
                                Ok(Err(v)) => { self.violate(base + i, v); stop.store(true, SeqCst); }
                                Err(e) => {
                                    // outside `guard`: something the explorer relies on
                                    // (its own renderings, conversions, constructors) fails
                                    let at = PANIC_AT.with(|p| p.borrow().clone());
                                    self.violate(base + i, Violation::new(format!("panic: {}", panic_text(&e)), format!("in \"{section}\", task {i}, at {at}")));
                                    stop.store(true, SeqCst);
                                }
                            }
                        }
                        locals.lock().unwrap().push(local);
                    })
                    .expect("spawn");
            }
        });
        let mut s = Local::default();
        for l in locals.into_inner().unwrap() {
            s.states += l.states;
            s.transitions += l.transitions;
            s.traces += l.traces;
            s.evaluations += l.evaluations;
            s.nontrivial += l.nontrivial;
            s.samples.extend(l.samples);
            s.outcomes.extend(l.outcomes);
        }
        let done = done.load(SeqCst);
        self.note(section, "tasks", format!("{done} of {n}"));
        if done < n && !self.failed() {
            self.note(section, "capped", "time cap reached, not exhaustive");
        }
        for (k, v) in [("states", s.states), ("transitions", s.transitions), ("traces", s.traces),
                       ("evaluations", s.evaluations), ("nontrivial", s.nontrivial),
                       ("distinct_outcomes_at_least", s.outcomes.len() as u64)] {
            if v > 0 { self.note(section, k, v) }
        }
        self.note(section, "wall_ms", (self.start.elapsed() - before).as_millis());
        let mut t = self.total.lock().unwrap();
        t.states += s.states;
        t.transitions += s.transitions;
        t.traces += s.traces;
        t.evaluations += s.evaluations;
        t.nontrivial += s.nontrivial;
        s.samples.truncate(3);
        t.samples.extend(s.samples.iter().map(|x| format!("[{section}] {x}")));
        let room = 400_000usize.saturating_sub(t.outcomes.len());
        t.outcomes.extend(s.outcomes.into_iter().take(room));
    }

    pub fn finish(self, rule: &str, assumptions: &[&str]) -> ! {
        let t = self.total.into_inner().unwrap();
        let sections = self.sections.into_inner().unwrap();
        let violation = self.violation.into_inner().unwrap().map(|v| v.1);
        let exhaustive = !sections.iter().any(|s| s.1.contains_key("capped"));
        let mut cov = Vec::new();
        match self.level {
            "model_checking" => {
                cov.push(format!("\"states\":{}", t.states));
                cov.push(format!("\"transitions\":{}", t.transitions));
                cov.push(format!("\"traces_validated_against_impl\":{}", t.traces));
                if t.evaluations > 0 { cov.push(format!("\"other_cases\":{}", t.evaluations)); }
            }
            _ => {
                cov.push(format!("\"evaluations\":{}", t.evaluations));
                cov.push(format!("\"distinct_nontrivial\":{}", t.nontrivial));
                if t.traces > 0 { cov.push(format!("\"histories\":{}", t.traces)); }
            }
        }
        cov.push(format!("\"rule\":{}", esc(rule)));
        cov.push(format!("\"distinct_outcomes_at_least\":{}", t.outcomes.len()));
        cov.push(format!("\"exhaustive\":{exhaustive}"));
        let samples: Vec<String> = t.samples.iter().take(24)
            .map(|s| esc(&s.chars().take(400).collect::<String>())).collect();
        cov.push(format!("\"samples\":[{}]", samples.join(",")));
        let secs: Vec<String> = sections.iter().map(|(n, m)| {
            let kv: Vec<String> = m.iter().map(|(k, v)| {
                if v.chars().all(|c| c.is_ascii_digit()) && !v.is_empty() { format!("{}:{}", esc(k), v) }
                else { format!("{}:{}", esc(k), esc(v)) }
            }).collect();
            format!("{}:{{{}}}", esc(n), kv.join(","))
        }).collect();
        cov.push(format!("\"sections\":{{{}}}", secs.join(",")));
        let v = match &violation {
            None => "null".to_string(),
            Some(v) => format!("{{\"what\":{},\"case\":{},\"repro\":{}}}", esc(&v.what), esc(&v.case), esc(&v.repro)),
        };
        let ass: Vec<String> = assumptions.iter().map(|a| esc(a)).collect();
        let json = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violation\":{}}}\n",
            esc(&self.id), esc(if self.thorough { "thorough" } else { "quick" }), self.seed,
            esc(self.level), cov.join(","), ass.join(","), self.start.elapsed().as_secs_f64(), v
        );
        match std::env::var_os("MC_RESULT") {
            Some(p) => std::fs::write(p, &json).expect("result"),
            None => print!("{json}"),
        }
        std::process::exit(if violation.is_some() { 1 } else { 0 });
    }
}
