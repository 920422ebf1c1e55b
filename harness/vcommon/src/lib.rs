//! Shared runner for the bounded-exhaustive checks.
//!
//! A check enumerates *cases*.  A case is one trace of the model (an operand tuple followed by
//! operations, an operation sequence, a configuration, a schedule, a fault) that is replayed on
//! the implementation and compared, step by step, with the reference model.  The runner counts
//!   * states      - distinct model states visited (hashes handed in by the check),
//!   * transitions - model steps executed on both sides,
//!   * traces      - cases completed on the implementation,
//! turns panics into failures, applies the known-findings file, writes the evidence file and
//! prints the VIOLATION / KNOWN-FINDING lines.
pub mod big;
pub mod keccak;

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// FNV-1a 64 over bytes followed by a finaliser; used for state identity only.
pub fn h64(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}
pub fn mix(mut h: u64) -> u64 {
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
    h ^= h >> 33;
    h = h.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    h ^= h >> 33;
    h
}
pub fn hw(words: &[u64]) -> u64 {
    let mut h = 0x9e37_79b9_7f4a_7c15_u64;
    for w in words {
        h = mix(h ^ *w).wrapping_add(0x9e37_79b9_7f4a_7c15);
    }
    h
}
pub fn hs(s: &str) -> u64 {
    h64(s.as_bytes())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Shared {
    pub prop: String,
    pub tier: Tier,
    pub filter: Option<String>,
    findings: Vec<(String, String)>,
    stop: AtomicBool,
    nviol: AtomicUsize,
    start: Instant,
}

/// Per-thread view of a running check.
pub struct Ck {
    pub sh: Arc<Shared>,
    states: Vec<u64>,
    transitions: u64,
    traces: u64,
    outcomes: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
    known: BTreeSet<String>,
    samples: Vec<String>,
    sample_tick: u64,
    slot: usize,
}

const SLOTS: usize = 4096;
/// start time (ms since the start, plus one) of the case each worker is in; 0 when idle
static BUSY: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
/// A case that runs longer than this does not terminate (the slowest takes seconds).
const HANG_MS: u64 = 240_000;

thread_local! {
    static SLOT: std::cell::Cell<(usize, Option<Instant>)> = const { std::cell::Cell::new((SLOTS, None)) };
}
/// The case this thread is in makes progress (a case that is itself a long search calls this).
pub fn beat() {
    if let (slot, Some(start)) = SLOT.with(|s| s.get()) {
        if slot < SLOTS {
            BUSY[slot].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        }
    }
}

const MAX_VIOL: usize = 8;

impl Ck {
    fn new(sh: Arc<Shared>) -> Self {
        Ck {
            sh,
            states: vec![],
            transitions: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            violations: vec![],
            known: BTreeSet::new(),
            samples: vec![],
            sample_tick: 0,
            slot: NEXT_SLOT.fetch_add(1, Ordering::Relaxed),
        }
    }
    pub fn quick(&self) -> bool {
        self.sh.tier == Tier::Quick
    }
    pub fn thorough(&self) -> bool {
        self.sh.tier == Tier::Thorough
    }
    /// pick a bound by tier
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.sh.start.elapsed().as_secs_f64()
    }
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Ordering::Relaxed)
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
        if self.states.len() >= 1 << 22 {
            self.states.sort_unstable();
            self.states.dedup();
        }
    }
    /// count an outcome class (for the "distinct outcomes" figure)
    pub fn outcome(&mut self, name: &str) {
        *self.outcomes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }

    /// One case: `state` identifies the model state(s), `steps` is the number of model steps.
    pub fn case(
        &mut self,
        state: u64,
        steps: u64,
        key: impl Fn() -> String,
        f: impl FnOnce() -> Result<(), String>,
    ) {
        if self.stopped() {
            return;
        }
        if let Some(flt) = &self.sh.filter {
            if &key() != flt {
                return;
            }
        }
        if self.slot < SLOTS {
            SLOT.with(|s| s.set((self.slot, Some(self.sh.start))));
            BUSY[self.slot].store(self.sh.start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        };
        if self.slot < SLOTS {
            BUSY[self.slot].store(0, Ordering::Relaxed);
        }
        self.state(state);
        self.transitions += steps;
        self.traces += 1;
        self.sample_tick += 1;
        // deterministic, spread out samples: powers of two
        if self.sample_tick.is_power_of_two() && self.samples.len() < 12 {
            self.samples.push(key());
        }
        if let Err(msg) = r {
            self.fail(key(), msg);
        }
    }

    pub fn fail(&mut self, key: String, msg: String) {
        for (fk, text) in &self.sh.findings {
            if *fk == key {
                self.known.insert(format!("{} [{}]", text, key));
                return;
            }
        }
        if self.sh.nviol.fetch_add(1, Ordering::Relaxed) + 1 >= MAX_VIOL {
            self.sh.stop.store(true, Ordering::Relaxed);
        }
        self.violations.push((key, msg));
    }

    fn child(&self) -> Ck {
        Ck::new(self.sh.clone())
    }
    fn absorb(&mut self, o: Ck) {
        self.states.extend(o.states);
        if self.states.len() > 1 << 22 {
            self.states.sort_unstable();
            self.states.dedup();
        }
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        self.violations.extend(o.violations);
        self.known.extend(o.known);
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
    }

    /// Explore `items` on all cores; each item gets the closure once.
    pub fn par<T: Sync>(&mut self, items: &[T], f: impl Fn(&mut Ck, &T) + Sync) {
        let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(items.len().max(1));
        let next = AtomicUsize::new(0);
        let out: Mutex<Vec<Ck>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..n {
                let mut c = self.child();
                let (next, out, f) = (&next, &out, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= items.len() || c.stopped() {
                                break;
                            }
                            // a panic outside `case` is still a failure, not a crash
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut c, &items[i])));
                            if r.is_err() {
                                let m = LAST_PANIC.with(|p| p.borrow().clone());
                                c.fail(format!("item #{} outside a case", i), format!("panicked: {}", m));
                            }
                        }
                        out.lock().unwrap().push(c);
                    })
                    .unwrap();
            }
        });
        for c in out.into_inner().unwrap() {
            self.absorb(c);
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Def {
    pub prop: &'static str,
    /// how cases are built and what the bounds are
    pub rule: &'static str,
    pub level: &'static str,
    pub run: fn(&mut Ck),
}

static CASES_TOTAL: AtomicU64 = AtomicU64::new(0);
pub fn note_cases(n: u64) {
    CASES_TOTAL.fetch_add(n, Ordering::Relaxed);
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Adds the steps of the pass with the release profile to the evidence of the first pass.
fn add_pass(first: &str, transitions: u64, traces: u64) -> String {
    let mut out = String::new();
    for l in first.lines() {
        let num = |name: &str| -> Option<u64> { l.trim().strip_prefix(&format!("\"{}\": ", name))?.strip_suffix(',')?.parse().ok() };
        if let Some(n) = num("transitions") {
            let _ = writeln!(out, "  \"transitions\": {},", n + transitions);
        } else if let Some(n) = num("traces_validated_against_impl") {
            let _ = writeln!(out, "  \"traces_validated_against_impl\": {},", n + traces);
        } else if l.starts_with("  \"rule\": \"") && l.ends_with("\",") {
            let _ = writeln!(out, "{}; all of it twice: with and without debug assertions and overflow checks\",", &l[..l.len() - 2]);
        } else {
            let _ = writeln!(out, "{}", l);
        }
    }
    out
}

/// Entry point used by every harness binary: `<bin> <property> [--replay FILE]`
pub fn main(defs: &[Def]) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let def = match defs.iter().find(|d| d.prop == prop) {
        Some(d) => d,
        None => {
            eprintln!("unknown property {:?}; have {:?}", prop, defs.iter().map(|d| d.prop).collect::<Vec<_>>());
            std::process::exit(2);
        }
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut filter = None;
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let line = txt.lines().find(|l| l.starts_with("key: ")).expect("key line");
        filter = Some(line["key: ".len()..].to_string());
    }
    let replaying = filter.is_some();
    let dir = verif_dir();
    let mut findings = vec![];
    if let Ok(txt) = std::fs::read_to_string(format!("{}/known_findings.txt", dir)) {
        for l in txt.lines() {
            // finding: property=C01 key=<key> :: <what fails>
            if let Some(rest) = l.strip_prefix(&format!("finding: property={} key=", prop)) {
                if let Some((k, t)) = rest.split_once(" :: ") {
                    findings.push((k.to_string(), t.to_string()));
                }
            }
        }
    }
    let sh = Arc::new(Shared {
        prop: prop.clone(),
        tier,
        filter,
        findings,
        stop: AtomicBool::new(false),
        nviol: AtomicUsize::new(0),
        start: Instant::now(),
    });
    {
        let (sh, prop, dir, level) = (sh.clone(), prop.clone(), dir.clone(), def.level);
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let now = sh.start.elapsed().as_millis() as u64;
            if BUSY.iter().any(|b| {
                let t = b.load(Ordering::Relaxed);
                t != 0 && now > t + HANG_MS
            }) {
                let _ = std::fs::create_dir_all(format!("{}/replays", dir));
                let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
                let path = format!("{}/replays/{}-hang.txt", dir, prop);
                let _ = std::fs::write(&path, format!("property: {}\nmessage: a case did not terminate within {} ms\n", prop, HANG_MS));
                let cov = if level == "model_checking" {
                    "\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 1"
                } else {
                    "\"evaluations\": 1, \"distinct_nontrivial\": 1"
                };
                let _ = std::fs::write(
                    format!("{}/evidence/{}.json", dir, prop),
                    format!("{{\"property\": {}, \"tier\": \"quick\", \"seed\": 1, \"level\": {}, \"coverage\": {{{}, \"rule\": \"a case did not terminate\", \"samples\": [\"hang\"]}}, \"assumptions\": [], \"wall_s\": {}, \"violations\": 1}}\n", esc(&prop), esc(level), cov, now / 1000),
                );
                println!("VIOLATION property={} replay={}", prop, path);
                std::process::exit(1);
            }
        });
    }
    let run = def.run;
    let sh2 = sh.clone();
    let mut ck = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut ck = Ck::new(sh2);
            let r = catch_unwind(AssertUnwindSafe(|| run(&mut ck)));
            if r.is_err() {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                ck.fail("driver outside a case".into(), format!("panicked: {}", m));
            }
            ck
        })
        .unwrap()
        .join()
        .unwrap();
    ck.states.sort_unstable();
    ck.states.dedup();
    let wall = sh.start.elapsed().as_secs_f64();
    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
        esc(&prop),
        esc(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        esc(def.level)
    );
    let outs: Vec<String> = ck.outcomes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let samples: Vec<String> = ck.samples.iter().map(|s| esc(s)).collect();
    let counts = if def.level == "model_checking" {
        format!(
            "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n",
            ck.states.len(),
            ck.transitions,
            ck.traces
        )
    } else {
        format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", ck.traces, ck.states.len())
    };
    let _ = write!(
        ev,
        "{}  \"outcomes\": {{{}}},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}]\n }},\n",
        counts,
        outs.join(", "),
        esc(def.rule),
        !sh.stop.load(Ordering::Relaxed) && !replaying,
        samples.join(", ")
    );
    let _ = write!(
        ev,
        " \"assumptions\": [\"decided within the stated bounds\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        wall,
        ck.violations.len()
    );
    let prod = std::env::var_os("VERIF_PROD").is_some();
    if prod && !replaying && ck.violations.is_empty() {
        // second pass over the same cases: add it to the evidence of the first one
        let path = format!("{}/evidence/{}.json", dir, prop);
        if let Ok(first) = std::fs::read_to_string(&path) {
            ev = add_pass(&first, ck.transitions, ck.traces);
        }
    }
    if !replaying {
        let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", dir, prop), ev) {
            eprintln!("cannot write evidence: {}", e);
            std::process::exit(2);
        }
    }
    println!(
        "{}{} tier={:?} states={} transitions={} traces={} outcomes={:?} wall={:.1}s",
        prop,
        if prod { " (release profile)" } else { "" },
        tier,
        ck.states.len(),
        ck.transitions,
        ck.traces,
        ck.outcomes,
        wall
    );
    for k in &ck.known {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    if ck.violations.is_empty() {
        if ck.traces == 0 && !replaying {
            println!("no case was executed: the check did not run");
            std::process::exit(2);
        }
        std::process::exit(0);
    }
    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
    for (i, (k, m)) in ck.violations.iter().enumerate() {
        let path = format!("{}/replays/{}-{}{}.txt", dir, prop, if prod { "prod-" } else { "" }, i);
        let body = format!(
            "property: {}\ntier: {}\nkey: {}\nmessage: {}\nreplay: VERIF_TIER={} bash /verif/check.sh {} --replay {}\n",
            prop,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            k.replace('\n', " "),
            m,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            prop,
            path
        );
        let _ = std::fs::write(&path, body);
        println!("  case: {}\n  why:  {}", k, m);
        println!("VIOLATION property={} replay={}", prop, path);
    }
    std::process::exit(1);
}
