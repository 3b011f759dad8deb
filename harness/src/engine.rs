//! A small stateless model checker.
//!
//! A *scenario* is a deterministic function of a [`Ctx`]; every call to
//! [`Ctx::choose`] is a nondeterministic choice point. The explorer runs the
//! scenario once for every sequence of choices (depth-first, odometer order, no sampling),
//! so that all behaviours of the driver are executed on the real library.

use crate::isolate::{isolated, Pack};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;
pub type Body = Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>;

pub struct Scenario {
    pub name: String,
    pub body: Body,
    /// Every execution in a process of its own.
    pub isolated: bool,
}

impl Scenario {
    pub fn isolated(mut self) -> Scenario {
        self.isolated = true;
        self
    }
}

pub fn scenario(
    name: impl Into<String>,
    body: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static,
) -> Scenario {
    Scenario {
        name: name.into(),
        body: Box::new(body),
        isolated: false,
    }
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub choice_points: u64,
    pub max_depth: usize,
    pub states: HashSet<u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub witness: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

impl Stats {
    fn absorb(&mut self, o: Stats) {
        self.executions += o.executions;
        self.transitions += o.transitions;
        self.choice_points += o.choice_points;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.states.extend(o.states);
        for (k, (n, d)) in o.known {
            let e = self.known.entry(k).or_insert((0, d));
            e.0 += n;
        }
        for (k, n) in o.witness {
            *self.witness.entry(k).or_insert(0) += n;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Ctx<'a> {
    prefix: &'a [u32],
    pub choices: Vec<u32>,
    pub arity: Vec<u32>,
    pub stats: &'a mut Stats,
    logging: bool,
    pub log: Vec<String>,
    diverged: bool,
    /// Tells the scenarios apart in `state_here`.
    salt: u64,
    /// True in the thorough tier.
    pub thorough: bool,
}

impl<'a> Ctx<'a> {
    /// Choose one of `n` alternatives; all of them are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: empty choice");
        let i = self.choices.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            if c as usize >= n {
                // A replayed prefix no longer fits: the scenario is not a
                // function of its choices.
                self.diverged = true;
                0
            } else {
                c
            }
        } else {
            0
        };
        self.choices.push(c);
        self.arity.push(n as u32);
        c as usize
    }

    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        let i = self.choose(xs.len());
        &xs[i]
    }

    /// Choose a vector of `n` elements from an alphabet.
    pub fn pick_vec(&mut self, n: usize, alphabet: &[f64]) -> Vec<f64> {
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// One operation was executed on the implementation.
    pub fn step(&mut self) {
        self.stats.transitions += 1;
    }

    pub fn steps(&mut self, n: usize) {
        self.stats.transitions += n as u64;
    }

    /// Record the observable state reached.
    pub fn state<H: Hash>(&mut self, h: H) {
        let k = hash64(h);
        self.stats.states.insert(k);
    }

    /// Record an observable state that means something within this scenario.
    pub fn state_here<H: Hash>(&mut self, h: H) {
        let k = hash64((self.salt, h));
        self.stats.states.insert(k);
    }

    /// Count that an interesting condition was exercised (vacuity monitor).
    pub fn witness(&mut self, what: &'static str) {
        *self.stats.witness.entry(what).or_insert(0) += 1;
    }

    /// A deviation that matches, exactly, one recorded as a known finding.
    pub fn known(&mut self, key: &str, detail: impl FnOnce() -> String) {
        match self.stats.known.get_mut(key) {
            Some(e) => e.0 += 1,
            None => {
                let d = detail();
                self.stats.known.insert(key.to_string(), (1, d));
            }
        }
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            let s = f();
            self.log.push(s);
        }
    }
}

pub fn hash64<H: Hash>(h: H) -> u64 {
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    h.hash(&mut s);
    s.finish()
}

pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| if *x == 0.0 { 0 } else { x.to_bits() }).collect()
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run a call into the library; a panic becomes an error message.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{} panicked: {}", what, last_panic()))
}

pub struct RunOutcome {
    pub result: Res,
    pub choices: Vec<u32>,
    pub arity: Vec<u32>,
    pub log: Vec<String>,
    pub diverged: bool,
}

pub fn run_once(
    sc: &Scenario,
    prefix: &[u32],
    stats: &mut Stats,
    logging: bool,
    thorough: bool,
) -> RunOutcome {
    if sc.isolated {
        return run_isolated(sc, prefix, stats, logging, thorough);
    }
    run_here(sc, prefix, stats, logging, thorough)
}

thread_local! {
    static NAMES: RefCell<BTreeMap<String, &'static str>> = RefCell::new(BTreeMap::new());
}

fn intern(s: String) -> &'static str {
    NAMES.with(|n| *n.borrow_mut().entry(s).or_insert_with_key(|k| Box::leak(k.clone().into_boxed_str())))
}

fn run_isolated(sc: &Scenario, prefix: &[u32], stats: &mut Stats, logging: bool, thorough: bool) -> RunOutcome {
    let got = isolated(|| {
        let mut st = Stats::default();
        let r = run_here(sc, prefix, &mut st, logging, thorough);
        let mut p = Pack::default();
        p.u64(r.result.is_err() as u64);
        p.str(r.result.as_ref().err().map_or("", |s| s.as_str()));
        p.u32s(&r.choices);
        p.u32s(&r.arity);
        p.u64(r.diverged as u64);
        p.u64(r.log.len() as u64);
        r.log.iter().for_each(|l| p.str(l));
        p.u64(st.transitions);
        p.u64(st.states.len() as u64);
        st.states.iter().for_each(|s| p.u64(*s));
        p.u64(st.witness.len() as u64);
        for (k, n) in &st.witness {
            p.str(k);
            p.u64(*n);
        }
        p.bytes
    });
    stats.executions += 1;
    let mut p = match got {
        Ok(b) => Pack::of(b),
        Err(e) => {
            return RunOutcome {
                result: Err(e),
                choices: prefix.to_vec(),
                arity: prefix.iter().map(|c| c + 1).collect(),
                log: vec![],
                diverged: false,
            }
        }
    };
    let (err, message) = (p.get_u64() == 1, p.get_str());
    let (choices, arity, diverged) = (p.get_u32s(), p.get_u32s(), p.get_u64() == 1);
    let log = (0..p.get_u64()).map(|_| p.get_str()).collect();
    stats.transitions += p.get_u64();
    for _ in 0..p.get_u64() {
        let s = p.get_u64();
        stats.states.insert(s);
    }
    for _ in 0..p.get_u64() {
        let (k, n) = (p.get_str(), p.get_u64());
        *stats.witness.entry(intern(k)).or_insert(0) += n;
    }
    stats.choice_points += choices.len() as u64;
    stats.max_depth = stats.max_depth.max(choices.len());
    RunOutcome { result: if err { Err(message) } else { Ok(()) }, choices, arity, log, diverged }
}

fn run_here(
    sc: &Scenario,
    prefix: &[u32],
    stats: &mut Stats,
    logging: bool,
    thorough: bool,
) -> RunOutcome {
    let mut ctx = Ctx {
        prefix,
        choices: Vec::with_capacity(prefix.len() + 4),
        arity: Vec::with_capacity(prefix.len() + 4),
        stats,
        logging,
        log: vec![],
        diverged: false,
        salt: hash64(&sc.name),
        thorough,
    };
    let result = match catch_unwind(AssertUnwindSafe(|| (sc.body)(&mut ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic())),
    };
    ctx.stats.executions += 1;
    ctx.stats.choice_points += ctx.choices.len() as u64;
    ctx.stats.max_depth = ctx.stats.max_depth.max(ctx.choices.len());
    RunOutcome {
        result,
        choices: ctx.choices,
        arity: ctx.arity,
        log: ctx.log,
        diverged: ctx.diverged,
    }
}

/// The next choice vector in depth-first order below `floor` forced choices.
fn next(choices: &[u32], arity: &[u32], floor: usize) -> Option<Vec<u32>> {
    let mut i = choices.len();
    while i > floor {
        i -= 1;
        if choices[i] + 1 < arity[i] {
            let mut p = choices[..=i].to_vec();
            p[i] += 1;
            return Some(p);
        }
    }
    None
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: usize,
    pub choices: Vec<u32>,
    pub message: String,
}

pub struct Exploration {
    pub stats: Stats,
    pub violation: Option<Violation>,
    pub capped: bool,
    pub items: usize,
}

pub struct Options {
    pub thorough: bool,
    pub threads: usize,
    pub wall_cap: Duration,
    pub exec_cap: Duration,
    /// File recording, per worker, the work item in progress (crash triage).
    pub slots: Option<PathBuf>,
    /// Called when one execution runs longer than `exec_cap`.
    pub on_hang: Option<Box<dyn Fn(&Violation) + Send + Sync>>,
}

const SLOT: u64 = 4096;

pub fn write_slot(file: &std::fs::File, w: usize, scenario: usize, prefix: &[u32]) {
    use std::os::unix::fs::FileExt;
    let mut s = format!("{} ", scenario);
    for c in prefix {
        s.push_str(&format!("{},", c));
    }
    s.push_str(" .\n");
    let _ = file.write_at(s.as_bytes(), w as u64 * SLOT);
}

pub fn read_slots(path: &Path) -> Vec<(usize, Vec<u32>)> {
    let data = std::fs::read(path).unwrap_or_default();
    let mut out = vec![];
    for chunk in data.chunks(SLOT as usize) {
        let s = String::from_utf8_lossy(chunk);
        let line = s.lines().next().unwrap_or("");
        let mut it = line.split(' ');
        if let (Some(a), Some(b)) = (it.next(), it.next()) {
            if let Ok(sc) = a.parse::<usize>() {
                let p = b.split(',').filter_map(|x| x.parse().ok()).collect();
                out.push((sc, p));
            }
        }
    }
    out
}

pub fn explore(scs: &[Scenario], opt: &Options) -> Exploration {
    let start = Instant::now();
    let items: Mutex<std::collections::VecDeque<(usize, Vec<u32>)>> = Mutex::new(Default::default());
    let total_items = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let best: Mutex<Option<Violation>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let slots = opt.slots.as_ref().map(|p| {
        std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(p)
            .expect("slots file")
    });
    // (start time in ms + 1, 0 = idle); current execution for hang reports
    let busy: Vec<AtomicU64> = (0..opt.threads).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<Mutex<(usize, Vec<u32>)>> =
        (0..opt.threads).map(|_| Mutex::new((0, vec![]))).collect();
    // One scenario is split on its first two choice points into work items.
    let next_scenario = AtomicUsize::new(0);
    let pending = AtomicUsize::new(scs.len());

    let better = |v: Violation| {
        let mut b = best.lock().unwrap();
        let replace = match &*b {
            None => true,
            Some(o) => (v.scenario, v.choices.len(), &v.choices) < (o.scenario, o.choices.len(), &o.choices),
        };
        if replace {
            *b = Some(v);
        }
        stop.store(true, Ordering::SeqCst);
    };

    std::thread::scope(|sc| {
        let mut handles = vec![];
        for w in 0..opt.threads {
            let (items, total_items, stop, capped, better, total, slots, busy, current, next_scenario, pending) = (
                &items, &total_items, &stop, &capped, &better, &total, &slots, &busy, &current, &next_scenario, &pending,
            );
            handles.push(sc.spawn(move || {
                let mut stats = Stats::default();
                let mut scratch = Stats::default();
                let enter = |s: usize, p: &[u32]| {
                    *current[w].lock().unwrap() = (s, p.to_vec());
                    busy[w].store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                };
                let leave = || busy[w].store(0, Ordering::SeqCst);
                loop {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let item = items.lock().unwrap().pop_front();
                    let (s, prefix) = match item {
                        Some(x) => x,
                        None => {
                            let s = next_scenario.fetch_add(1, Ordering::SeqCst);
                            if s < scs.len() {
                                // split
                                if let Some(f) = slots {
                                    write_slot(f, w, s, &[]);
                                }
                                let mut level: Vec<Vec<u32>> = vec![vec![]];
                                let mut deeper = true;
                                for depth in 0..2 {
                                    if !deeper || level.len() > 64 {
                                        break;
                                    }
                                    deeper = false;
                                    let mut nxt = vec![];
                                    for p in &level {
                                        if p.len() < depth {
                                            nxt.push(p.clone());
                                            continue;
                                        }
                                        enter(s, p);
                                        let r = run_once(&scs[s], p, &mut scratch, false, opt.thorough);
                                        leave();
                                        if r.arity.len() > depth {
                                            deeper = true;
                                            for c in 0..r.arity[depth] {
                                                let mut q = p.clone();
                                                q.push(c);
                                                nxt.push(q);
                                            }
                                        } else {
                                            nxt.push(p.clone());
                                        }
                                    }
                                    level = nxt;
                                }
                                total_items.fetch_add(level.len(), Ordering::SeqCst);
                                pending.fetch_add(level.len(), Ordering::SeqCst);
                                items.lock().unwrap().extend(level.into_iter().map(|p| (s, p)));
                                pending.fetch_sub(1, Ordering::SeqCst);
                                scratch = Stats::default();
                                continue;
                            }
                            if pending.load(Ordering::SeqCst) == 0 {
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(200));
                            continue;
                        }
                    };
                    if let Some(f) = slots {
                        write_slot(f, w, s, &prefix);
                    }
                    let floor = prefix.len();
                    let mut cur = prefix;
                    let mut n = 0u64;
                    loop {
                        enter(s, &cur);
                        let r = run_once(&scs[s], &cur, &mut stats, false, opt.thorough);
                        leave();
                        if r.diverged {
                            better(Violation {
                                scenario: s,
                                choices: cur.clone(),
                                message: "DIVERGED: the replayed prefix met different choice points (harness or library nondeterminism)".into(),
                            });
                            break;
                        }
                        if let Err(m) = r.result {
                            better(Violation { scenario: s, choices: r.choices.clone(), message: m });
                            break;
                        }
                        n += 1;
                        if n == 1 && stats.samples.len() < 2 {
                            let rl = run_once(&scs[s], &cur, &mut scratch, true, opt.thorough);
                            let mut l = rl.log;
                            l.truncate(12);
                            stats.samples.push(format!("{} choices={:?}: {}", scs[s].name, rl.choices, l.join("; ")));
                            scratch = Stats::default();
                        }
                        if n % 64 == 0 {
                            if stop.load(Ordering::SeqCst) {
                                break;
                            }
                        }
                        if start.elapsed() > opt.wall_cap {
                            capped.store(true, Ordering::SeqCst);
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                        match next(&r.choices, &r.arity, floor) {
                            Some(p) => cur = p,
                            None => break,
                        }
                    }
                    pending.fetch_sub(1, Ordering::SeqCst);
                }
                total.lock().unwrap().absorb(stats);
            }));
        }
        // watchdog
        let wd = {
            let (done, busy, current, scs) = (&done, &busy, &current, scs);
            let opt = &opt;
            sc.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = start.elapsed().as_millis() as u64 + 1;
                    for w in 0..opt.threads {
                        let b = busy[w].load(Ordering::SeqCst);
                        if b != 0 && now.saturating_sub(b) > opt.exec_cap.as_millis() as u64 {
                            let (s, p) = current[w].lock().unwrap().clone();
                            if let Some(h) = &opt.on_hang {
                                h(&Violation {
                                    scenario: s,
                                    choices: p,
                                    message: format!(
                                        "an execution of `{}` did not terminate within {:?}",
                                        scs[s].name, opt.exec_cap
                                    ),
                                });
                            }
                        }
                    }
                }
            })
        };
        for h in handles {
            h.join().unwrap();
        }
        done.store(true, Ordering::SeqCst);
        wd.join().unwrap();
    });

    Exploration {
        stats: total.into_inner().unwrap(),
        violation: best.into_inner().unwrap(),
        capped: capped.load(Ordering::SeqCst),
        items: total_items.load(Ordering::SeqCst),
    }
}

/// Explore one work item sequentially, recording each execution before it
/// starts (used in a child process to find an execution that crashes).
pub fn explore_item_recording(scs: &[Scenario], s: usize, prefix: &[u32], slots: &Path, thorough: bool) {
    let f = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(slots)
        .expect("slots file");
    let mut stats = Stats::default();
    let mut cur = prefix.to_vec();
    loop {
        write_slot(&f, 0, s, &cur);
        let r = run_once(&scs[s], &cur, &mut stats, false, thorough);
        stats = Stats::default();
        match next(&r.choices, &r.arity, prefix.len()) {
            Some(p) => cur = p,
            None => break,
        }
    }
}

// ------------------------------------------------------------------ JSON out

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_file(path: &Path, s: &str) {
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let mut f = std::fs::File::create(path).expect("create output file");
    f.write_all(s.as_bytes()).expect("write output file");
}
