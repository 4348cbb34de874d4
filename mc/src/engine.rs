//! The explorer: enumerates *every* case of every space of a property (a space is a finite set of
//! cases, addressed by index), runs the real code on it, and checks the property's oracle.
//!
//! Process structure: the parent starts one child that explores; the child journals which chunk of
//! cases every worker is on. If the child dies (stack overflow, abort, memory limit), the parent
//! re-executes the journalled chunks in fresh children to find the case that does it; only a case
//! that reproduces in a process of its own is reported as a violation. Anything else that goes
//! wrong is an error of the check (exit 3), never a verdict.

use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Counters and recording for one worker.
#[derive(Default)]
pub struct Cx {
    /// Explored states: (case, configuration) pairs.
    pub states: u64,
    /// Transitions: calls into the real code whose result was observed.
    pub trans: u64,
    /// Observed results that were compared with what the model says.
    pub valid: u64,
    outcomes: HashSet<u64>,
    outcomes_capped: bool,
    samples: Vec<String>,
    want_sample: bool,
}

const OUTCOME_CAP: usize = 100_000;

impl Cx {
    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
    }
    #[inline]
    pub fn op(&mut self) {
        self.trans += 1;
    }
    pub fn ops(&mut self, n: u64) {
        self.trans += n;
    }
    #[inline]
    pub fn checked(&mut self) {
        self.valid += 1;
    }
    /// Records an observed outcome, to count how many different ones there were.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() >= OUTCOME_CAP {
            self.outcomes_capped = true;
            return;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.outcomes.insert(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            self.samples.push(f());
        }
    }
}

pub type Verdict = Result<(), String>;
pub type Worker = Box<dyn FnMut(u64, &mut Cx) -> Verdict>;

/// A finite set of cases, all of which are run.
pub struct Space {
    pub name: String,
    pub bound: String,
    pub len: u64,
    pub factory: Box<dyn Fn() -> Worker + Send + Sync>,
}

pub fn space<F, W>(name: &str, bound: impl Into<String>, len: u64, factory: F) -> Space
where
    F: Fn() -> W + Send + Sync + 'static,
    W: FnMut(u64, &mut Cx) -> Verdict + 'static,
{
    Space {
        name: name.to_owned(),
        bound: bound.into(),
        len,
        factory: Box::new(move || Box::new(factory())),
    }
}

/// A single case that is expected to possibly take its whole process down; run in a child each.
pub struct Probe {
    pub name: &'static str,
    pub what: &'static str,
    pub run: fn(),
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(thorough: bool) -> Vec<Space>,
    pub probes: &'static [Probe],
}

/// All sequences over an alphabet of `k` symbols with lengths `min..=max`, shortest first.
#[derive(Clone, Copy)]
pub struct Seqs {
    pub k: u64,
    pub min: u32,
    pub max: u32,
}

impl Seqs {
    pub fn new(k: usize, min: u32, max: u32) -> Self {
        Seqs { k: k as u64, min, max }
    }
    pub fn len(&self) -> u64 {
        (self.min..=self.max).map(|n| self.k.pow(n)).sum()
    }
    pub fn decode(&self, mut idx: u64, out: &mut Vec<usize>) {
        out.clear();
        let mut n = self.min;
        loop {
            let c = self.k.pow(n);
            if idx < c {
                break;
            }
            idx -= c;
            n += 1;
        }
        for _ in 0..n {
            out.push((idx % self.k) as usize);
            idx /= self.k;
        }
        out.reverse();
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum CaseResult {
    Ok,
    Violation(String),
}

// The input being handled, for violation messages about panics and crashes.
thread_local! {
    static CURRENT: RefCell<String> = RefCell::new(String::new());
    static DESCRIBE: RefCell<bool> = RefCell::new(false);
}

/// Notes what is about to be run. Only recorded when a single case is being reproduced.
pub fn note(f: impl FnOnce() -> String) {
    DESCRIBE.with(|d| {
        if *d.borrow() {
            CURRENT.with(|c| *c.borrow_mut() = f());
        }
    });
}

fn run_case(w: &mut Worker, idx: u64, cx: &mut Cx) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(|| w(idx, cx))) {
        Ok(Ok(())) => CaseResult::Ok,
        Ok(Err(msg)) => CaseResult::Violation(msg),
        Err(_) => {
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            // This crate is compiled with paths relative to its own root
            if loc.starts_with("src/") {
                // Does not happen on results that are as they should be, in any case explored
                CaseResult::Violation(format!("what the code returned could not be handled, at {}: {}", loc, msg))
            } else {
                CaseResult::Violation(format!("the code panicked at {}: {}", loc, msg))
            }
        }
    }
}

const HANG_SECS: u64 = 30;
const STACK: usize = 8 << 20;
const CHUNK: u64 = 64;

struct Explored {
    cx: Vec<Cx>,
    /// (space, index, message)
    violation: Option<(usize, u64, String)>,
    internal: Option<String>,
    hang: Option<(usize, u64)>,
    per_space: Vec<(String, String, u64, f64)>,
}

/// Explores every case of every space. `slow` journals every single case.
fn explore(
    spaces: Arc<Vec<Space>>,
    journal: &Path,
    only: Option<(usize, u64, u64)>,
) -> Explored {
    let threads = if only.is_some() {
        1
    } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    };
    let journal = Arc::new(
        fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(journal)
            .expect("journal"),
    );
    let mut out = Explored {
        cx: vec![],
        violation: None,
        internal: None,
        hang: None,
        per_space: vec![],
    };
    for si in 0..spaces.len() {
        let (from, to) = match only {
            Some((s, _, _)) if s != si => continue,
            Some((_, from, to)) => (from, to.min(spaces[si].len)),
            None => (0, spaces[si].len),
        };
        let started = Instant::now();
        let chunk = if only.is_some() {
            1
        } else {
            CHUNK.min((to - from) / (threads as u64 * 4) + 1)
        };
        let next = Arc::new(AtomicU64::new(from));
        let best = Arc::new(AtomicU64::new(u64::MAX));
        let internal = Arc::new(Mutex::new(None::<String>));
        let found = Arc::new(Mutex::new(None::<(u64, String)>));
        let busy: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new(
            (0..threads)
                .map(|_| (AtomicU64::new(0), AtomicU64::new(0)))
                .collect(),
        );
        let done = Arc::new(AtomicU64::new(0));
        let base = Instant::now();
        let mut handles = vec![];
        for t in 0..threads {
            let (spaces, next, best, internal, found, busy, done, journal) = (
                spaces.clone(),
                next.clone(),
                best.clone(),
                internal.clone(),
                found.clone(),
                busy.clone(),
                done.clone(),
                journal.clone(),
            );
            let single = only.is_some();
            handles.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn(move || {
                        let mut cx = Cx::default();
                        let stop = AtomicBool::new(false);
                        DESCRIBE.with(|d| *d.borrow_mut() = single && to - from == 1);
                        let mut w = (spaces[si].factory)();
                        while !stop.load(Relaxed) {
                            let start = next.fetch_add(chunk, Relaxed);
                            if start >= to || start > best.load(Relaxed) {
                                break;
                            }
                            let rec = format!("{:>4} {:>20} {:>20}\n", si, start, chunk);
                            let _ = journal.write_all_at(rec.as_bytes(), (t * rec.len()) as u64);
                            for idx in start..(start + chunk).min(to) {
                                busy[t].1.store(idx, Relaxed);
                                busy[t]
                                    .0
                                    .store(base.elapsed().as_millis() as u64 + 1, Release);
                                cx.want_sample = cx.samples.len() < 2
                                    || (idx == to - 1)
                                    || (cx.samples.len() < 6 && idx % 4099 == 17);
                                match run_case(&mut w, idx, &mut cx) {
                                    CaseResult::Ok => {}
                                    CaseResult::Violation(msg) => {
                                        let mut f = found.lock().unwrap();
                                        if f.as_ref().map_or(true, |(i, _)| idx < *i) {
                                            *f = Some((idx, msg));
                                        }
                                        best.fetch_min(idx, Relaxed);
                                        break;
                                    }
                                }
                            }
                            busy[t].0.store(0, Release);
                        }
                        busy[t].0.store(0, Release);
                        done.fetch_add(1, Release);
                        cx
                    })
                    .expect("spawn"),
            );
        }
        // Watchdog
        while done.load(Acquire) < threads as u64 {
            std::thread::sleep(Duration::from_millis(5));
            let now = base.elapsed().as_millis() as u64 + 1;
            for b in busy.iter() {
                let s = b.0.load(Acquire);
                if s != 0 && now > s + HANG_SECS * 1000 {
                    out.hang = Some((si, b.1.load(Relaxed)));
                    return out;
                }
            }
        }
        for h in handles {
            match h.join() {
                Ok(cx) => out.cx.push(cx),
                Err(_) => out.internal = Some("a worker died".to_owned()),
            }
        }
        let broken = internal.lock().unwrap().take();
        if let Some(m) = broken {
            out.internal = Some(m);
            return out;
        }
        out.per_space.push((
            spaces[si].name.clone(),
            spaces[si].bound.clone(),
            to - from,
            started.elapsed().as_secs_f64(),
        ));
        let first = found.lock().unwrap().take();
        if let Some((idx, msg)) = first {
            out.violation = Some((si, idx, msg));
            return out;
        }
    }
    out
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        s.chars().take(n).chain(" ...".chars()).collect()
    }
}

fn err(msg: String) -> ! {
    eprintln!("CHECK-ERROR: {}", msg);
    exit(3)
}

enum Child {
    Clean,
    Violation { space: usize, idx: u64, msg: String },
    Crash(String),
    Hang { space: usize, idx: u64 },
    Internal(String),
}

fn run_child(args: &[String], result: &Path) -> Child {
    let _ = fs::remove_file(result);
    let status = Command::new(std::env::current_exe().expect("exe"))
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output();
    let out = match status {
        Ok(o) => o,
        Err(e) => return Child::Internal(format!("cannot start child: {}", e)),
    };
    let text = fs::read_to_string(result).unwrap_or_default();
    let tail: String = {
        let s = String::from_utf8_lossy(&out.stderr).into_owned();
        s.lines().take(3).collect::<Vec<_>>().join(" | ")
    };
    match out.status.code() {
        Some(0) => Child::Clean,
        Some(1) | Some(4) => {
            let mut lines = text.splitn(2, '\n');
            let head: Vec<u64> = lines
                .next()
                .unwrap_or("")
                .split(' ')
                .filter_map(|x| x.parse().ok())
                .collect();
            if head.len() != 2 {
                return Child::Internal(format!("bad result from child: {:?} {}", text, tail));
            }
            if out.status.code() == Some(1) {
                Child::Violation {
                    space: head[0] as usize,
                    idx: head[1],
                    msg: lines.next().unwrap_or("").to_owned(),
                }
            } else {
                Child::Hang {
                    space: head[0] as usize,
                    idx: head[1],
                }
            }
        }
        Some(c) => Child::Internal(format!("child exit {}: {} {}", c, text, tail)),
        None => Child::Crash(format!(
            "the process died with signal {}: {}",
            out.status.signal().unwrap_or(0),
            tail
        )),
    }
}

fn parse_range(s: &str) -> (usize, u64, u64) {
    let v: Vec<u64> = s.split(',').map(|x| x.parse().expect("range")).collect();
    (v[0] as usize, v[1], v[2])
}

pub fn main(props: &[Property]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut id = String::new();
    let mut child = None;
    let mut only = None;
    let mut probe = None;
    let mut replay = None;
    let mut root = PathBuf::from("/verif");
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => tier = it.next().expect("tier").clone(),
            "--child" => child = Some(PathBuf::from(it.next().expect("dir"))),
            "--only" => only = Some(parse_range(it.next().expect("range"))),
            "--probe" => probe = it.next().cloned(),
            "--replay" => replay = it.next().cloned(),
            "--root" => root = PathBuf::from(it.next().expect("root")),
            x => id = x.to_owned(),
        }
    }
    if let Some(file) = &replay {
        let text = fs::read_to_string(file).unwrap_or_else(|e| err(format!("{}: {}", file, e)));
        let get = |k: &str| {
            text.lines()
                .find_map(|l| l.strip_prefix(&format!("{}: ", k)))
                .map(str::to_owned)
                .unwrap_or_else(|| err(format!("no {} in replay file", k)))
        };
        id = get("property");
        tier = get("tier");
        if let Some(p) = text.lines().find_map(|l| l.strip_prefix("probe: ")) {
            probe = Some(p.to_owned());
        } else {
            let s: u64 = get("space-number").parse().expect("space");
            let i: u64 = get("index").parse().expect("index");
            only = Some((s as usize, i, i + 1));
        }
    }
    let prop = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => err(format!("unknown property {:?}", id)),
    };
    let thorough = match tier.as_str() {
        "quick" => false,
        "thorough" => true,
        t => err(format!("unknown tier {:?}", t)),
    };

    if let (Some(name), Some(_)) = (&probe, &child) {
        let p = prop.probes.iter().find(|p| p.name == name).expect("probe");
        let run = p.run;
        let ok = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || run())
            .expect("spawn")
            .join()
            .is_ok();
        exit(if ok { 0 } else { 5 });
    }

    if let Some(dir) = &child {
        install_hook();
        let spaces = Arc::new((prop.spaces)(thorough));
        let ex = explore(spaces.clone(), &dir.join("journal"), only);
        let result = dir.join("result");
        if let Some(m) = ex.internal {
            let _ = fs::write(&result, &m);
            eprintln!("{}", m);
            exit(3);
        }
        if let Some((s, i)) = ex.hang {
            let _ = fs::write(&result, format!("{} {}\n", s, i));
            exit(4);
        }
        let mut total = Cx::default();
        let mut capped = false;
        for cx in ex.cx {
            total.states += cx.states;
            total.trans += cx.trans;
            total.valid += cx.valid;
            capped |= cx.outcomes_capped;
            total.outcomes.extend(cx.outcomes);
            total.samples.extend(cx.samples);
        }
        total.samples.sort();
        total.samples.dedup();
        let n = total.samples.len();
        let samples: Vec<String> = total
            .samples
            .iter()
            .step_by((n / 12).max(1))
            .take(12)
            .map(|s| jstr(&clip(s, 400)))
            .collect();
        let per: Vec<String> = ex
            .per_space
            .iter()
            .map(|(n, b, c, t)| {
                format!(
                    "{{\"space\": {}, \"bound\": {}, \"cases\": {}, \"seconds\": {:.2}}}",
                    jstr(n),
                    jstr(b),
                    c,
                    t
                )
            })
            .collect();
        let cov = format!(
            "\"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"distinct_outcomes_capped\": {},\n  \"exhaustive\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]",
            total.states,
            total.trans,
            total.valid,
            total.outcomes.len(),
            capped,
            ex.violation.is_none(),
            per.join(",\n   "),
            samples.join(",\n   ")
        );
        let _ = fs::write(dir.join("coverage"), cov);
        if let Some((s, i, msg)) = ex.violation {
            let _ = fs::write(&result, format!("{} {}\n{}", s, i, msg));
            exit(1);
        }
        exit(0);
    }

    parent(prop, &tier, thorough, &root, only, probe, replay.is_some());
}

struct TmpDir(PathBuf);
impl Drop for TmpDir {
    fn drop(&mut self) {
        for f in ["journal", "result", "coverage"] {
            let _ = fs::remove_file(self.0.join(f));
        }
        let _ = fs::remove_dir(&self.0);
    }
}

fn parent(
    prop: &Property,
    tier: &str,
    thorough: bool,
    root: &Path,
    only: Option<(usize, u64, u64)>,
    probe: Option<String>,
    replaying: bool,
) {
    let started = Instant::now();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap_or_else(|e| err(format!("{}: {}", dir.display(), e)));
    let dir = TmpDir(dir);
    let result = dir.0.join("result");
    let base_args = |extra: &[String]| {
        let mut v = vec![
            prop.id.to_owned(),
            "--tier".to_owned(),
            tier.to_owned(),
            "--child".to_owned(),
            dir.0.display().to_string(),
        ];
        v.extend_from_slice(extra);
        v
    };
    let range = |s: usize, a: u64, b: u64| {
        base_args(&["--only".to_owned(), format!("{},{},{}", s, a, b)])
    };
    let names: Vec<(String, String)> = (prop.spaces)(thorough)
        .into_iter()
        .map(|s| (s.name, s.bound))
        .collect();

    let mut violation: Option<(usize, u64, String)> = None;
    let mut probe_violation: Option<(String, String)> = None;
    let mut known_lines = vec![];
    let mut probes_run = 0u64;

    if probe.is_none() {
        let first = match only {
            Some((s, a, b)) => run_child(&range(s, a, b), &result),
            None => run_child(&base_args(&[]), &result),
        };
        match first {
            Child::Clean => {}
            Child::Violation { space, idx, msg } => violation = Some((space, idx, msg)),
            Child::Internal(m) => {
                drop(dir);
                err(m)
            }
            Child::Hang { space, idx } => match run_child(&range(space, idx, idx + 1), &result) {
                Child::Hang { .. } => {
                    violation = Some((
                        space,
                        idx,
                        format!("did not finish within {} s (twice)", HANG_SECS),
                    ))
                }
                Child::Violation { msg, .. } => violation = Some((space, idx, msg)),
                Child::Crash(m) => violation = Some((space, idx, m)),
                _ => {
                    drop(dir);
                    err("a case that seemed to hang did not when run again".into())
                }
            },
            Child::Crash(m) => {
                // Find out which of the cases being run does it
                let journal = fs::read_to_string(dir.0.join("journal")).unwrap_or_default();
                let mut cands: Vec<(usize, u64, u64)> = journal
                    .lines()
                    .filter_map(|l| {
                        let v: Vec<u64> =
                            l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                        (v.len() == 3).then(|| (v[0] as usize, v[1], v[1] + v[2]))
                    })
                    .collect();
                cands.sort();
                let mut hit = None;
                'outer: for (s, a, b) in cands {
                    if let Child::Crash(_) = run_child(&range(s, a, b), &result) {
                        let j = fs::read_to_string(dir.0.join("journal")).unwrap_or_default();
                        let v: Vec<u64> = j
                            .split_whitespace()
                            .filter_map(|x| x.parse().ok())
                            .collect();
                        if v.len() >= 2 {
                            if let Child::Crash(m) = run_child(&range(s, v[1], v[1] + 1), &result) {
                                hit = Some((s, v[1], m));
                                break 'outer;
                            }
                        }
                    }
                }
                match hit {
                    Some(h) => violation = Some(h),
                    None => {
                        drop(dir);
                        err(format!("{}; no single case reproduces it", m))
                    }
                }
            }
        }
    }
    let coverage = fs::read_to_string(dir.0.join("coverage")).unwrap_or_default();

    let known = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    if only.is_none() && violation.is_none() {
        for p in prop.probes {
            if probe.as_ref().map_or(false, |n| n != p.name) {
                continue;
            }
            probes_run += 1;
            let r = run_child(
                &base_args(&["--probe".to_owned(), p.name.to_owned()]),
                &result,
            );
            let what = match r {
                Child::Clean => continue,
                Child::Crash(m) => m,
                Child::Internal(m) if m.starts_with("child exit 5") => "panicked".to_owned(),
                Child::Internal(m) => {
                    drop(dir);
                    err(m)
                }
                _ => continue,
            };
            let key = format!("known: property={} probe={}", prop.id, p.name);
            if known.lines().any(|l| l == key || l.starts_with(&format!("{} ", key))) && !replaying {
                let line = format!("KNOWN-FINDING: property={} {} ({})", prop.id, p.what, clip(&what, 120));
                println!("{}", line);
                known_lines.push(line);
            } else {
                probe_violation = Some((p.name.to_owned(), format!("{}: {}", p.what, what)));
                break;
            }
        }
    }

    let replay_dir = root.join("replays");
    let mut viol_json = String::new();
    let mut viol_line = None;
    if let Some((s, i, msg)) = &violation {
        let _ = fs::create_dir_all(&replay_dir);
        let f = replay_dir.join(format!("{}-{}-{}.txt", prop.id, names[*s].0, i));
        let _ = fs::write(
            &f,
            format!(
                "property: {}\ntier: {}\nspace-number: {}\nspace: {} ({})\nindex: {}\n\n{}\n",
                prop.id, tier, s, names[*s].0, names[*s].1, i, msg
            ),
        );
        println!("{}", msg);
        viol_json = format!(",\n  \"violation\": {}", jstr(&clip(msg, 2000)));
        viol_line = Some(format!(
            "VIOLATION property={} replay={}",
            prop.id,
            f.display()
        ));
    } else if let Some((name, msg)) = &probe_violation {
        let _ = fs::create_dir_all(&replay_dir);
        let f = replay_dir.join(format!("{}-{}.txt", prop.id, name));
        let _ = fs::write(
            &f,
            format!(
                "property: {}\ntier: {}\nprobe: {}\n\n{}\n",
                prop.id, tier, name, msg
            ),
        );
        println!("{}", msg);
        viol_json = format!(",\n  \"violation\": {}", jstr(&clip(msg, 2000)));
        viol_line = Some(format!(
            "VIOLATION property={} replay={}",
            prop.id,
            f.display()
        ));
    }
    drop(dir);

    if !replaying && only.is_none() && probe.is_none() {
        let assumptions: Vec<String> = prop.assumptions.iter().map(|a| jstr(a)).collect();
        let known_json: Vec<String> = known_lines.iter().map(|a| jstr(a)).collect();
        let coverage = if coverage.is_empty() {
            // The exploring process died; what it covered until then is lost
            "\"states\": 0,\n  \"transitions\": 0,\n  \"traces_validated_against_impl\": 0,\n  \"exhaustive\": false,\n  \"samples\": [\"crash\"]".to_owned()
        } else {
            coverage
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse::<i64>().ok())
            .unwrap_or(1);
        let json = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  {},\n  \"probes_run_in_own_process\": {},\n  \"known_findings\": [{}]{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            jstr(prop.id),
            jstr(tier),
            seed,
            coverage,
            probes_run,
            known_json.join(", "),
            viol_json,
            assumptions.join(", "),
            started.elapsed().as_secs_f64(),
            viol_line.is_some() as u8
        );
        let ev = root.join("evidence");
        let _ = fs::create_dir_all(&ev);
        let path = ev.join(format!("{}.json", prop.id));
        if let Err(e) = fs::File::create(&path).and_then(|mut f| f.write_all(json.as_bytes())) {
            err(format!("{}: {}", path.display(), e));
        }
    }
    match viol_line {
        Some(l) => {
            println!("{}", l);
            exit(1)
        }
        None => {
            println!(
                "OK property={} tier={} ({:.1} s)",
                prop.id,
                tier,
                started.elapsed().as_secs_f64()
            );
            exit(0)
        }
    }
}
