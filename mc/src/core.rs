//! Runner: enumerated cases on worker threads, panic capture, watchdog, known findings,
//! replay artefacts, evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case failed. `kind` is a stable slug (known findings refer to it).
#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub detail: String,
}

pub type Res = Result<(), Fail>;

impl From<anyhow::Error> for Fail {
    fn from(e: anyhow::Error) -> Self {
        Fail { kind: "error".into(), detail: format!("refused: {e}") }
    }
}

#[macro_export]
macro_rules! fail {
    ($kind:expr, $($arg:tt)*) => {
        return Err($crate::core::Fail { kind: $kind.to_string(), detail: format!($($arg)*) })
    };
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::core::Fail { kind: $kind.to_string(), detail: format!($($arg)*) });
        }
    };
}

#[derive(Clone, Debug)]
struct Finding {
    case: String,
    kind: String,
    what: String,
}

#[derive(Default)]
struct Totals {
    states: HashSet<u64>,
    transitions: u64,
    cases: u64,
    traces: u64,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(String, Fail)>,
    violation_count: u64,
    known: BTreeMap<String, u64>,
}

pub struct Env {
    pub prop: String,
    pub tier: Tier,
    pub seed: i64,
    filter: Option<String>,
    known: Vec<Finding>,
    totals: Mutex<Totals>,
    start: Instant,
    slots: Vec<Slot>,
    pub notes: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub capped: Mutex<Option<String>>,
    verbose: bool,
    crashed: HashSet<String>,
}

struct Slot {
    started_ms: AtomicU64,
    case: Mutex<String>,
    file: Option<fs::File>,
}

pub const WORKERS: usize = 8;
const HANG_MS: u64 = 60_000;

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_case = IN_CASE.with(|c| *c.borrow());
        if in_case {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        } else {
            default(info);
        }
    }));
}

impl Env {
    pub fn new(prop: &str, tier: Tier, seed: i64, filter: Option<String>) -> Self {
        let dir = verif_dir();
        let mut known = vec![];
        if let Ok(s) = fs::read_to_string(dir.join("known-findings.txt")) {
            for line in s.lines() {
                // finding: property=X case=Y kind=Z :: what
                if let Some(rest) = line.strip_prefix("finding: ") {
                    let (head, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
                    let mut p = "";
                    let mut c = "";
                    let mut k = "";
                    for w in head.split_whitespace() {
                        if let Some(v) = w.strip_prefix("property=") {
                            p = v
                        } else if let Some(v) = w.strip_prefix("case=") {
                            c = v
                        } else if let Some(v) = w.strip_prefix("kind=") {
                            k = v
                        }
                    }
                    if p == prop {
                        known.push(Finding {
                            case: c.into(),
                            kind: k.into(),
                            what: what.into(),
                        });
                    }
                }
            }
        }
        let crumbs = std::env::var("MC_CRUMBS").ok();
        let slots = (0..WORKERS)
            .map(|i| Slot {
                started_ms: AtomicU64::new(0),
                case: Mutex::new(String::new()),
                file: crumbs
                    .as_ref()
                    .and_then(|d| fs::File::create(format!("{d}/{i}")).ok()),
            })
            .collect();
        Self {
            prop: prop.to_string(),
            tier,
            seed,
            filter,
            known,
            totals: Mutex::new(Totals::default()),
            start: Instant::now(),
            slots,
            notes: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            capped: Mutex::new(None),
            verbose: std::env::var("MC_VERBOSE").is_ok(),
            crashed: std::env::var("MC_CRASHED")
                .map(|s| s.lines().map(|l| l.to_string()).collect())
                .unwrap_or_default(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        let mut n = self.notes.lock().unwrap();
        if !n.contains(&s) {
            n.push(s);
        }
    }

    pub fn assume(&self, s: impl Into<String>) {
        let s = s.into();
        let mut n = self.assumptions.lock().unwrap();
        if !n.contains(&s) {
            n.push(s);
        }
    }

    /// Explore the items on all workers. Every item is a unit of enumeration.
    pub fn par<T: Sync, F: Fn(&T, &mut Rec) + Sync>(&self, items: &[T], f: F) {
        let next = AtomicUsize::new(0);
        let live = AtomicUsize::new(WORKERS);
        std::thread::scope(|s| {
            for w in 0..WORKERS {
                let next = &next;
                let f = &f;
                let live = &live;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut rec = Rec::new(self, w);
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= items.len() {
                                break;
                            }
                            let r = catch_unwind(AssertUnwindSafe(|| f(&items[i], &mut rec)));
                            if r.is_err() {
                                self.setup_failed();
                            }
                        }
                        rec.flush();
                        live.fetch_sub(1, Ordering::SeqCst);
                    })
                    .expect("spawn");
            }
            // watchdog
            s.spawn(|| loop {
                std::thread::sleep(std::time::Duration::from_millis(20));
                if live.load(Ordering::SeqCst) == 0 {
                    break;
                }
                let now = self.start.elapsed().as_millis() as u64 + 1;
                for slot in &self.slots {
                    let st = slot.started_ms.load(Ordering::SeqCst);
                    if st != 0 && now > st + HANG_MS {
                        let id = slot.case.lock().unwrap().clone();
                        self.report(
                            &id,
                            Fail {
                                kind: "hang".into(),
                                detail: format!("no result within {HANG_MS} ms"),
                            },
                        );
                        let code = self.finish();
                        std::io::stdout().flush().ok();
                        std::process::exit(code);
                    }
                }
            });
        });
    }

    /// A call of the implementation that prepares cases panics or refuses its input.
    pub fn setup_failed(&self) {
        self.report(
            "setup",
            Fail {
                kind: "setup".into(),
                detail: "a call that prepares the cases panics or refuses its input (see the output above)".into(),
            },
        );
    }

    fn report(&self, id: &str, f: Fail) {
        let mut t = self.totals.lock().unwrap();
        if let Some(k) = self
            .known
            .iter()
            .find(|k| k.case == id && (k.kind == f.kind))
        {
            let what = format!("{} [case {}]", k.what, k.case);
            *t.known.entry(what).or_default() += 1;
            return;
        }
        t.violation_count += 1;
        if t.violations.len() < if self.verbose { 100000 } else { 200 } {
            t.violations.push((id.to_string(), f));
        }
    }

    /// Report, write evidence; the exit code.
    pub fn finish(&self) -> i32 {
        let dir = verif_dir();
        let mut t = self.totals.lock().unwrap();
        for (k, _) in t.known.iter() {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        t.violations.sort_by(|a, b| {
            (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0))
        });
        let replays = dir.join("replays");
        let _ = fs::create_dir_all(&replays);
        if self.filter.is_none() {
            if let Ok(rd) = fs::read_dir(&replays) {
                for e in rd.flatten() {
                    let n = e.file_name().to_string_lossy().to_string();
                    if n.starts_with(&format!("{}-", self.prop)) {
                        let _ = fs::remove_file(e.path());
                    }
                }
            }
        }
        let show = if self.verbose { 100000 } else { 10 };
        for (i, (id, f)) in t.violations.iter().take(show).enumerate() {
            let path = replays.join(format!("{}-{}.txt", self.prop, i));
            if i < 10 {
                let _ = fs::write(
                    &path,
                    format!(
                        "property={}\ntier={}\ncase={}\nkind={}\ndetail={}\n# re-run: {}/check.sh --replay {}\n",
                        self.prop,
                        tier,
                        id,
                        f.kind,
                        f.detail,
                        dir.display(),
                        path.display()
                    ),
                );
            }
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            println!("  case {id} [{}] {}", f.kind, f.detail);
        }
        if t.violation_count > show as u64 {
            println!("  ... {} violations in all", t.violation_count);
        }
        let wall = self.start.elapsed().as_secs_f64();
        println!(
            "{} {}: states={} transitions={} cases={} traces={} known={} violations={} wall={:.1}s",
            self.prop,
            tier,
            t.states.len(),
            t.transitions,
            t.cases,
            t.traces,
            t.known.len(),
            t.violation_count,
            wall
        );
        for (k, v) in t.outcomes.iter() {
            println!("  outcome {k}: {v}");
        }
        let capped = self.capped.lock().unwrap().clone();
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": t.states.len(),
                "transitions": t.transitions,
                "traces_validated_against_impl": t.traces,
                "cases": t.cases,
                "outcomes": t.outcomes,
                "samples": t.samples,
                "exhaustive": capped.is_none() && self.filter.is_none(),
                "cap": capped,
                "bounds": *self.notes.lock().unwrap(),
                "known_findings": t.known,
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": wall,
            "violations": t.violation_count,
        });
        if self.filter.is_none() {
            let _ = fs::create_dir_all(dir.join("evidence"));
            fs::write(
                dir.join("evidence").join(format!("{}.json", self.prop)),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("write evidence");
        }
        if t.violation_count > 0 {
            1
        } else {
            0
        }
    }
}

pub struct Rec<'a> {
    pub env: &'a Env,
    slot: usize,
    states: HashSet<u64>,
    transitions: u64,
    cases: u64,
    traces: u64,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
}

impl<'a> Rec<'a> {
    fn new(env: &'a Env, slot: usize) -> Self {
        Self {
            env,
            slot,
            states: HashSet::new(),
            transitions: 0,
            cases: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            samples: vec![],
        }
    }

    /// A state of the exploration (by its canonical hash). True if it is new to this worker.
    pub fn state(&mut self, h: u64) -> bool {
        self.states.insert(h)
    }

    /// `n` transitions (calls of the implementation compared with the model).
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }

    pub fn outcome(&mut self, k: &str) {
        if let Some(v) = self.outcomes.get_mut(k) {
            *v += 1;
        } else {
            self.outcomes.insert(k.to_string(), 1);
        }
    }

    /// One case: `f` drives the implementation and compares it with the model.
    /// `true` if it ran and held.
    pub fn case<F: FnOnce(&mut Rec) -> Res>(&mut self, id: &str, f: F) -> bool {
        if let Some(want) = self.env.filter.as_ref() {
            if want != id {
                return true;
            }
        }
        assert!(!id.contains(char::is_whitespace), "case id with blanks: {id}");
        self.cases += 1;
        if self.env.crashed.contains(id) {
            self.env.report(
                id,
                Fail {
                    kind: "abort".into(),
                    detail: "the process dies (stack overflow, out of memory or abort)".into(),
                },
            );
            return false;
        }
        let slot = &self.env.slots[self.slot];
        if let Some(file) = &slot.file {
            let mut b = id.as_bytes().to_vec();
            b.push(b'\n');
            let _ = file.write_at(&b, 0);
        }
        {
            let mut c = slot.case.lock().unwrap();
            c.clear();
            c.push_str(id);
        }
        slot.started_ms.store(
            self.env.start.elapsed().as_millis() as u64 + 1,
            Ordering::SeqCst,
        );
        rand::script::set(&[], 0.5);
        IN_CASE.with(|c| *c.borrow_mut() = true);
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        IN_CASE.with(|c| *c.borrow_mut() = false);
        slot.started_ms.store(0, Ordering::SeqCst);
        if self.samples.len() < 3 {
            self.samples.push(id.to_string());
        }
        match r {
            Ok(Ok(())) => {
                self.traces += 1;
                true
            }
            Ok(Err(fl)) => {
                self.env.report(id, fl);
                false
            }
            Err(_) => {
                let (msg, loc) = PANIC
                    .with(|p| p.borrow_mut().take())
                    .unwrap_or_default();
                self.env.report(
                    id,
                    Fail {
                        kind: "panic".into(),
                        detail: format!("{msg} at {loc}"),
                    },
                );
                false
            }
        }
    }

    fn flush(&mut self) {
        let mut t = self.env.totals.lock().unwrap();
        t.states.extend(self.states.drain());
        t.transitions += self.transitions;
        t.cases += self.cases;
        t.traces += self.traces;
        for (k, v) in std::mem::take(&mut self.outcomes) {
            *t.outcomes.entry(k).or_default() += v;
        }
        if t.samples.len() < 12 {
            t.samples.append(&mut self.samples);
        }
        self.transitions = 0;
        self.cases = 0;
        self.traces = 0;
    }
}

/// Run `f` catching panics (inside a case) as an error string.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| *c.borrow_mut() = was);
    r.map_err(|_| {
        let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("panic: {m} at {l}")
    })
}

/// FNV hash of rounded numbers: the canonical form of a state.
pub struct Canon(u64);

impl Canon {
    pub fn new() -> Self {
        Canon(0xcbf29ce484222325)
    }
    pub fn u(mut self, v: u64) -> Self {
        for b in v.to_le_bytes() {
            self.0 ^= b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
        self
    }
    pub fn f(self, v: f64) -> Self {
        let r = (v * 1e7).round();
        let r = if r == 0.0 { 0.0 } else { r };
        self.u(r.to_bits())
    }
    pub fn fs(mut self, v: &[f64]) -> Self {
        self = self.u(v.len() as u64);
        for x in v {
            self = self.f(*x);
        }
        self
    }
    pub fn s(mut self, v: &str) -> Self {
        for b in v.bytes() {
            self = self.u(b as u64);
        }
        self
    }
    pub fn get(self) -> u64 {
        self.0
    }
}
