//! Worker processes, minimisation, replay files and evidence.

use crate::core::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub run: fn(),
    /// Start a new process for every run, since the run depends on process-wide state.
    pub fresh: bool,
    /// What makes a run non-trivial.
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub quick_s: f64,
    pub thorough_s: f64,
}

pub struct Outcome {
    pub ctx: Ctx,
}

/// One run. Everything that happens in it is a function of `source` and `tape`.
pub fn execute(prop: &Prop, source: Draws, tape: Vec<u64>, verbose: bool) -> Outcome {
    reset_alloc_state();
    set_mxcsr();
    set_backtrace(verbose);
    let mut ctx = Ctx::new(source, tape, verbose);
    ctx.prop = prop.id;
    set_ctx(Some(ctx));
    set_poison(0xa7);
    let result = catch_unwind(AssertUnwindSafe(|| (prop.run)()));
    set_poison(0);
    set_backtrace(false);
    reset_alloc_state();
    let mut ctx = set_ctx(None).unwrap();
    if let Err(payload) = result {
        if ctx.violation.is_none() && !payload.is::<SimDone>() {
            let message = if payload.is::<SimAbort>() {
                "aborted without a violation".to_string()
            } else {
                PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
            };
            ctx.violation = Some(Violation { class: "panic".into(), message });
        }
    }
    Outcome { ctx }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _q = Quiet::new();
        let text = format!("{info}").replace('\n', " ");
        if active() {
            with(|c| c.aborting = true);
            PANIC.with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    *p = Some(text);
                }
            });
        } else {
            eprintln!("harness panic: {text}");
        }
    }));
}

pub fn run_seed(seed: u64, prop: &Prop, index: u64) -> u64 {
    let mut h = seed;
    for b in prop.id.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, index)
}

/// Shrink the tape while the same class of violation persists.
fn minimise(prop: &Prop, tape: Vec<u64>, class: &str, budget: Duration) -> Vec<u64> {
    let start = Instant::now();
    let mut best = tape;
    let fails = |t: &[u64]| -> Option<usize> {
        let o = execute(prop, Draws::Replay, t.to_vec(), false);
        match &o.ctx.violation {
            Some(v) if v.class == class => Some(o.ctx.pos),
            _ => None,
        }
    };
    if let Some(used) = fails(&best) {
        best.truncate(used);
    } else {
        return best;
    }
    let out = |s: &Instant| s.elapsed() > budget;
    loop {
        let before = best.clone();
        // Cut the tail.
        let mut n = best.len() / 2;
        while n > 0 && !out(&start) {
            if n < best.len() {
                let t = best[..best.len() - n].to_vec();
                if fails(&t).is_some() {
                    best = t;
                    continue;
                }
            }
            n /= 2;
        }
        // Delete and zero chunks.
        for zero in [false, true] {
            let mut size = (best.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.len() && !out(&start) {
                    let j = (i + size).min(best.len());
                    let mut t = best.clone();
                    if zero {
                        if t[i..j].iter().all(|v| *v == 0) {
                            i = j;
                            continue;
                        }
                        t[i..j].fill(0);
                    } else {
                        t.drain(i..j);
                    }
                    if fails(&t).is_some() {
                        best = t;
                        if zero {
                            i = j;
                        }
                    } else {
                        i = j;
                    }
                }
                if size == 1 || out(&start) {
                    break;
                }
                size /= 2;
            }
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() && !out(&start) {
            let v = best[i];
            if v > 1 {
                for w in [v / 2, v - 1] {
                    let mut t = best.clone();
                    t[i] = w;
                    if fails(&t).is_some() {
                        best = t;
                        break;
                    }
                }
            }
            i += 1;
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before || out(&start) {
            return best;
        }
    }
}

pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub class: String,
    pub message: String,
    pub loghash: u64,
    /// Absent when the process died: the seed regenerates the run.
    pub tape: Option<Vec<u64>>,
    pub trace: Vec<String>,
}

impl Replay {
    pub fn write(&self, path: &Path) {
        let mut s = String::new();
        s += "fsim-replay 1\n";
        s += &format!("property {}\n", self.property);
        s += &format!("seed {}\nindex {}\n", self.seed, self.index);
        s += &format!("class {}\nmessage {}\n", self.class, self.message.replace('\n', " "));
        s += &format!("loghash {:016x}\n", self.loghash);
        match &self.tape {
            Some(t) => {
                let t: Vec<String> = t.iter().map(|v| v.to_string()).collect();
                s += &format!("tape {}\n", t.join(","));
            }
            None => s += "tape from-seed\n",
        }
        s += "trace\n";
        for l in &self.trace {
            s += l;
            s += "\n";
        }
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p).unwrap();
        }
        std::fs::write(path, s).unwrap();
    }
    pub fn read(path: &Path) -> Replay {
        let s = std::fs::read_to_string(path).expect("replay file");
        let mut r = Replay {
            property: String::new(),
            seed: 0,
            index: 0,
            class: String::new(),
            message: String::new(),
            loghash: 0,
            tape: None,
            trace: vec![],
        };
        for line in s.lines() {
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            match k {
                "property" => r.property = v.into(),
                "seed" => r.seed = v.parse().unwrap(),
                "index" => r.index = v.parse().unwrap(),
                "class" => r.class = v.into(),
                "message" => r.message = v.into(),
                "loghash" => r.loghash = u64::from_str_radix(v, 16).unwrap(),
                "tape" => {
                    if v != "from-seed" {
                        r.tape = Some(
                            v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                        )
                    }
                }
                "trace" => break,
                _ => (),
            }
        }
        r
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

static RUN_STARTED: AtomicU64 = AtomicU64::new(0);
static RUN_INDEX: AtomicU64 = AtomicU64::new(u64::MAX);

fn millis() -> u64 {
    use std::sync::OnceLock;
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

const HANG_MS: u64 = 60_000;
const HANG_EXIT: i32 = 77;

/// Known findings: `property=<id> class=<class> match=<text>` lines.
pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
    pub line: String,
}

pub fn known_findings(verif: &Path) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(verif.join("known-findings.txt")) {
        for line in s.lines() {
            if let Some(rest) = line.strip_prefix("finding: ") {
                let mut k = Known {
                    property: String::new(),
                    class: String::new(),
                    text: String::new(),
                    line: rest.to_string(),
                };
                for part in rest.split(" | ") {
                    if let Some(v) = part.trim().strip_prefix("property=") {
                        k.property = v.into()
                    } else if let Some(v) = part.trim().strip_prefix("class=") {
                        k.class = v.into()
                    } else if let Some(v) = part.trim().strip_prefix("match=") {
                        k.text = v.into()
                    }
                }
                out.push(k);
            }
        }
    }
    out
}

/// Worker: executes runs wid, wid + n, ... until the deadline.
pub fn worker(prop: &Prop, verif: &Path, seed: u64, wid: u64, n: u64, seconds: f64, status: &Path) -> i32 {
    install_panic_hook();
    fundsp::sim::install(&HOOK);
    millis();
    let known: Vec<Known> = known_findings(verif).into_iter().filter(|k| k.property == prop.id).collect();
    let status_path = status.to_path_buf();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let started = RUN_STARTED.load(Ordering::SeqCst);
        let index = RUN_INDEX.load(Ordering::SeqCst);
        if index != u64::MAX && millis().saturating_sub(started) > HANG_MS {
            let _ = std::fs::write(&status_path, format!("hang {index}"));
            unsafe { libc_exit(HANG_EXIT) };
        }
    });
    let start = Instant::now();
    let mut stats = Stats::default();
    let mut index = wid;
    let file = std::fs::File::create(status).unwrap();
    let max_runs: u64 = std::env::var("FSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    while start.elapsed().as_secs_f64() < seconds && index < max_runs {
        use std::os::unix::fs::FileExt;
        file.write_at(format!("run {index:<20}").as_bytes(), 0).unwrap();
        RUN_STARTED.store(millis(), Ordering::SeqCst);
        RUN_INDEX.store(index, Ordering::SeqCst);
        let rs = run_seed(seed, prop, index);
        let o = execute(prop, Draws::Generate(Rng::new(rs)), vec![], false);
        RUN_INDEX.store(u64::MAX, Ordering::SeqCst);
        stats.add(&o.ctx);
        if stats.samples.len() < 2 && o.ctx.nontrivial && o.ctx.violation.is_none() && wid == 0 {
            // Write one case out in full.
            let v = execute(prop, Draws::Replay, o.ctx.tape.clone(), true);
            let mut t = v.ctx.trace.clone();
            t.truncate(40);
            stats.samples.push(format!("run {index} seed {rs}: {}", t.join(" / ")));
        }
        if let Some(v) = &o.ctx.violation {
            if let Some(k) = known.iter().find(|k| k.class == v.class && v.message.contains(&k.text)) {
                *stats.known.entry(k.line.clone()).or_insert(0) += 1;
                index += n;
                continue;
            }
            let tape = if std::env::var("FSIM_NOMIN").is_ok() {
                o.ctx.tape.clone()
            } else {
                minimise(prop, o.ctx.tape.clone(), &v.class, Duration::from_secs(20))
            };
            let r = execute(prop, Draws::Replay, tape.clone(), true);
            let (class, message) = match &r.ctx.violation {
                Some(v) => (v.class.clone(), v.message.clone()),
                None => (v.class.clone(), format!("{} (replay did not reproduce)", v.message)),
            };
            let replay = Replay {
                property: prop.id.into(),
                seed,
                index,
                class,
                message,
                loghash: r.ctx.log_hash,
                tape: Some(tape),
                trace: r.ctx.trace,
            };
            let path = replay_path(verif, prop, index);
            replay.write(&path);
            std::fs::write(status, format!("violation {}", path.display())).unwrap();
            stats.print();
            return 1;
        }
        index += n;
    }
    std::fs::write(status, "done").unwrap();
    stats.print();
    0
}

fn replay_path(verif: &Path, prop: &Prop, index: u64) -> PathBuf {
    verif.join("replay").join(format!("{}-{}.replay", prop.id, index))
}

unsafe fn libc_exit(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    _exit(code)
}

#[derive(Default)]
pub struct Stats {
    runs: u64,
    events: u64,
    points: u64,
    switches: u64,
    sim_seconds: f64,
    nontrivial: u64,
    schedules: HashSet<u64>,
    states: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}

impl Stats {
    fn add(&mut self, c: &Ctx) {
        self.runs += 1;
        self.events += c.events;
        self.points += c.points;
        self.switches += c.switches;
        self.sim_seconds += c.sim_seconds;
        if self.schedules.len() < 400_000 {
            self.schedules.insert(c.sched_hash);
        }
        if c.nontrivial {
            self.nontrivial += 1;
            if self.states.len() < 400_000 {
                self.states.insert(c.log_hash);
            }
        }
        for (k, v) in &c.counters {
            *self.counters.entry(k.to_string()).or_insert(0) += v;
        }
    }
    fn print(&self) {
        let out = std::io::stdout();
        let mut out = out.lock();
        writeln!(out, "runs {}", self.runs).unwrap();
        writeln!(out, "events {}", self.events).unwrap();
        writeln!(out, "points {}", self.points).unwrap();
        writeln!(out, "switches {}", self.switches).unwrap();
        writeln!(out, "sim_seconds {}", self.sim_seconds).unwrap();
        writeln!(out, "nontrivial {}", self.nontrivial).unwrap();
        for (k, v) in &self.counters {
            writeln!(out, "counter {v} {k}").unwrap();
        }
        for (k, v) in &self.known {
            writeln!(out, "known {v} {k}").unwrap();
        }
        for s in &self.samples {
            writeln!(out, "sample {s}").unwrap();
        }
        for h in &self.schedules {
            writeln!(out, "h {h:x}").unwrap();
        }
        for h in &self.states {
            writeln!(out, "s {h:x}").unwrap();
        }
    }
    fn merge(&mut self, text: &str) {
        for line in text.lines() {
            let Some((k, v)) = line.split_once(' ') else { continue };
            match k {
                "runs" => self.runs += v.parse::<u64>().unwrap(),
                "events" => self.events += v.parse::<u64>().unwrap(),
                "points" => self.points += v.parse::<u64>().unwrap(),
                "switches" => self.switches += v.parse::<u64>().unwrap(),
                "sim_seconds" => self.sim_seconds += v.parse::<f64>().unwrap(),
                "nontrivial" => self.nontrivial += v.parse::<u64>().unwrap(),
                "counter" => {
                    let (n, name) = v.split_once(' ').unwrap();
                    *self.counters.entry(name.into()).or_insert(0) += n.parse::<u64>().unwrap();
                }
                "known" => {
                    let (n, name) = v.split_once(' ').unwrap();
                    *self.known.entry(name.into()).or_insert(0) += n.parse::<u64>().unwrap();
                }
                "sample" => self.samples.push(v.into()),
                "h" => {
                    self.schedules.insert(u64::from_str_radix(v, 16).unwrap());
                }
                "s" => {
                    self.states.insert(u64::from_str_radix(v, 16).unwrap());
                }
                _ => (),
            }
        }
    }
}

/// One run in a process of its own; its statistics and any violation go to stdout.
pub fn single(prop: &Prop, verif: &Path, seed: u64, index: u64) -> i32 {
    worker_one(prop, verif, seed, index)
}

fn worker_one(prop: &Prop, verif: &Path, seed: u64, index: u64) -> i32 {
    install_panic_hook();
    fundsp::sim::install(&HOOK);
    let rs = run_seed(seed, prop, index);
    let o = execute(prop, Draws::Generate(Rng::new(rs)), vec![], true);
    let mut stats = Stats::default();
    stats.add(&o.ctx);
    if index == 0 {
        let mut t = o.ctx.trace.clone();
        t.truncate(40);
        stats.samples.push(format!("run {index} seed {rs}: {}", t.join(" / ")));
    }
    stats.print();
    if let Some(v) = &o.ctx.violation {
        let replay = Replay {
            property: prop.id.into(),
            seed,
            index,
            class: v.class.clone(),
            message: v.message.clone(),
            loghash: o.ctx.log_hash,
            tape: Some(o.ctx.tape.clone()),
            trace: o.ctx.trace.clone(),
        };
        replay.write(&replay_path(verif, prop, index));
        return 1;
    }
    0
}

/// Worker for properties whose runs need a fresh process each.
fn fresh_worker(prop: &Prop, verif: &Path, seed: u64, wid: u64, n: u64, seconds: f64, status: &Path) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let start = Instant::now();
    let mut stats = Stats::default();
    let mut index = wid;
    while start.elapsed().as_secs_f64() < seconds {
        let out = Command::new(&exe)
            .args(["single", prop.id, &seed.to_string(), &index.to_string()])
            .env("FSIM_VERIF", verif)
            .stdin(Stdio::null())
            .output()
            .unwrap();
        stats.merge(&String::from_utf8_lossy(&out.stdout));
        match out.status.code() {
            Some(0) => (),
            Some(1) => {
                std::fs::write(status, format!("violation {}", replay_path(verif, prop, index).display())).unwrap();
                stats.print();
                return 1;
            }
            _ => {
                std::fs::write(status, format!("run {index}")).unwrap();
                eprintln!("{}", String::from_utf8_lossy(&out.stderr));
                return 101;
            }
        }
        index += n;
    }
    std::fs::write(status, "done").unwrap();
    stats.print();
    0
}

pub fn worker_main(prop: &Prop, verif: &Path, seed: u64, wid: u64, n: u64, seconds: f64, status: &Path) -> i32 {
    if prop.fresh {
        fresh_worker(prop, verif, seed, wid, n, seconds, status)
    } else {
        worker(prop, verif, seed, wid, n, seconds, status)
    }
}

/// The check of one property.
pub fn check(prop: &Prop, verif: &Path, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let workers: u64 = std::env::var("FSIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64)
        .clamp(1, 64);
    let seconds: f64 = std::env::var("FSIM_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(
        if tier == "thorough" { prop.thorough_s } else { prop.quick_s },
    );
    println!("fsim: property {} ({}) tier {tier} seed {seed}: {workers} worker processes, {seconds} s", prop.id, prop.title);
    let scratch = std::env::temp_dir().join(format!("fsim-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut children = vec![];
    for w in 0..workers {
        let status = scratch.join(format!("status-{w}"));
        let outp = scratch.join(format!("out-{w}"));
        let child = Command::new(&exe)
            .args([
                "worker",
                prop.id,
                &seed.to_string(),
                &w.to_string(),
                &workers.to_string(),
                &seconds.to_string(),
                status.to_str().unwrap(),
            ])
            .env("FSIM_VERIF", verif)
            .env("FSIM_SCRATCH", &scratch)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&outp).unwrap())
            .stderr(std::fs::File::create(scratch.join(format!("err-{w}"))).unwrap())
            .spawn()
            .unwrap();
        children.push((w, child, status, outp, None::<std::process::ExitStatus>));
    }
    let mut found: Option<PathBuf> = None;
    let mut error: Option<String> = None;
    let mut violation_at: Option<Instant> = None;
    loop {
        let mut running = false;
        for (_w, child, status, _o, st) in children.iter_mut() {
            if st.is_some() {
                continue;
            }
            match child.try_wait().unwrap() {
                None => running = true,
                Some(code) => {
                    *st = Some(code);
                    let text = std::fs::read_to_string(&status).unwrap_or_default();
                    if code.code() == Some(0) {
                        continue;
                    }
                    if code.code() == Some(1) {
                        if let Some(p) = text.strip_prefix("violation ") {
                            if found.is_none() {
                                found = Some(PathBuf::from(p.trim()));
                            }
                            violation_at.get_or_insert(Instant::now());
                            continue;
                        }
                    }
                    // The worker died: the run it was in took the process down, or hung.
                    let mut it = text.split_whitespace();
                    let kind = it.next().unwrap_or("").to_string();
                    let index: Option<u64> = it.next().and_then(|s| s.parse().ok());
                    match index {
                        Some(index) if kind == "run" || kind == "hang" => {
                            let (class, message) = if kind == "hang" {
                                ("liveness", format!("a run made no progress for {HANG_MS} ms"))
                            } else {
                                ("crash", format!("the process died during the run: {code}"))
                            };
                            if found.is_none() && confirm_death(prop, verif, seed, index) {
                                let path = replay_path(verif, prop, index);
                                Replay {
                                    property: prop.id.into(),
                                    seed,
                                    index,
                                    class: class.into(),
                                    message,
                                    loghash: 0,
                                    tape: None,
                                    trace: vec![],
                                }
                                .write(&path);
                                found = Some(path);
                                violation_at.get_or_insert(Instant::now());
                            } else if found.is_none() {
                                error = Some(format!("worker ended with {code} in run {index} and the run does not repeat that"));
                            }
                        }
                        _ => error = Some(format!("worker ended with {code}: {text}")),
                    }
                }
            }
        }
        if !running {
            break;
        }
        if violation_at.is_some() || error.is_some() {
            for (_w, child, _s, _o, st) in children.iter_mut() {
                if st.is_none() {
                    let _ = child.kill();
                    let _ = child.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut stats = Stats::default();
    for (w, _c, _s, o, _st) in &children {
        let mut text = String::new();
        std::fs::File::open(o).unwrap().read_to_string(&mut text).unwrap();
        stats.merge(&text);
        if error.is_some() {
            eprintln!("worker {w}: {}", std::fs::read_to_string(scratch.join(format!("err-{w}"))).unwrap_or_default());
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if let Some(e) = error {
        if found.is_none() {
            eprintln!("fsim: harness error: {e}");
            return 2;
        }
    }
    let mut code = 0;
    if let Some(path) = &found {
        // The replay file has to reproduce the violation in a fresh process.
        let st = Command::new(&exe)
            .args(["replay", path.to_str().unwrap()])
            .env("FSIM_VERIF", verif)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .unwrap();
        let r = Replay::read(path);
        println!("fsim: class {}: {}", r.class, r.message);
        println!("fsim: replay in a fresh process {}", if st.code() == Some(1) { "reproduces it exactly" } else { "DIFFERS" });
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
    }
    for k in known_findings(verif).iter().filter(|k| k.property == prop.id) {
        println!(
            "KNOWN-FINDING: property={} {} (hit {} times)",
            prop.id,
            k.line,
            stats.known.get(&k.line).copied().unwrap_or(0)
        );
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, verif, tier, seed, &stats, wall, seconds, workers, code);
    println!(
        "fsim: {} runs ({:.0} per hour), {} distinct schedules, {:.1} simulated seconds, exit {code}",
        stats.runs,
        stats.runs as f64 / wall * 3600.0,
        stats.schedules.len(),
        stats.sim_seconds
    );
    code
}

/// Does the run really take a process down (or hang it)?
fn confirm_death(prop: &Prop, verif: &Path, seed: u64, index: u64) -> bool {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(&exe)
        .args(["single", prop.id, &seed.to_string(), &index.to_string()])
        .env("FSIM_VERIF", verif)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            return !matches!(st.code(), Some(0) | Some(1));
        }
        if t.elapsed().as_millis() as u64 > HANG_MS {
            let _ = child.kill();
            let _ = child.wait();
            return true;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn evidence(prop: &Prop, verif: &Path, tier: &str, seed: u64, s: &Stats, wall: f64, seconds: f64, workers: u64, code: i32) {
    let dir = verif.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let faults: Vec<String> = s
        .counters
        .iter()
        .filter(|(k, _)| k.starts_with("fault: "))
        .map(|(k, v)| format!("{}: {v}", json_str(&k[7..])))
        .collect();
    let probes: Vec<String> = s
        .counters
        .iter()
        .filter(|(k, _)| !k.starts_with("fault: "))
        .map(|(k, v)| format!("{}: {v}", json_str(k)))
        .collect();
    let samples: Vec<String> = s.samples.iter().take(3).map(|x| json_str(x)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"nontrivial_runs\": {},\n  \"simulated_seconds\": {:.3},\n  \"scheduling_points\": {},\n  \"context_switches\": {},\n  \"logged_events\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"distinct hashes of the sequence of (task, synchronisation operation) pairs\",\n  \"faults_injected\": {{{}}},\n  \"reached\": {{{}}},\n  \"worker_processes\": {workers},\n  \"budget_s\": {seconds},\n  \"real_code\": {},\n  \"stubbed\": {},\n  \"known_findings_hit\": {}\n }},\n \"assumptions\": [\"sampled, not exhaustive\", \"simulated threads are sequentially consistent: weak-memory reorderings are not explored\"],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        json_str(prop.id),
        json_str(tier),
        s.runs,
        s.states.len(),
        json_str(prop.rule),
        samples.join(", "),
        s.runs as f64 / wall * 3600.0,
        s.runs as f64 / wall * 3600.0,
        s.nontrivial,
        s.sim_seconds,
        s.points,
        s.switches,
        s.events,
        s.schedules.len(),
        faults.join(", "),
        probes.join(", "),
        json_str(prop.real),
        json_str(prop.stub),
        s.known.values().sum::<u64>(),
        if code == 1 { 1 } else { 0 },
        wall
    );
    std::fs::write(dir.join(format!("{}.json", prop.id)), text).unwrap();
}

pub fn replay(prop: &Prop, r: &Replay, path: &Path, verif: &Path) -> i32 {
    let Some(tape) = &r.tape else {
        // Crash or hang: the seed is the replay.
        let died = confirm_death(prop, verif, r.seed, r.index);
        if died {
            println!("fsim: the process dies or hangs again ({})", r.message);
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            return 1;
        }
        println!("fsim: no longer reproduces");
        return 0;
    };
    install_panic_hook();
    fundsp::sim::install(&HOOK);
    let o = execute(prop, Draws::Replay, tape.clone(), true);
    for l in &o.ctx.trace {
        println!("{l}");
    }
    match &o.ctx.violation {
        Some(v) => {
            println!("fsim: class {}: {}", v.class, v.message);
            let same = v.class == r.class && o.ctx.log_hash == r.loghash;
            println!("fsim: {}", if same { "same violation, same event log" } else { "DIFFERENT from the recorded run" });
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            if same {
                1
            } else {
                3
            }
        }
        None => {
            println!("fsim: no longer reproduces");
            0
        }
    }
}

/// Print one line per run: index, event log hash, schedule hash. Used to prove determinism.
pub fn determinism(prop: &Prop, seed: u64, first: u64, n: u64) -> i32 {
    install_panic_hook();
    fundsp::sim::install(&HOOK);
    for index in first..first + n {
        let rs = run_seed(seed, prop, index);
        let o = execute(prop, Draws::Generate(Rng::new(rs)), vec![], false);
        println!(
            "{} {index} {:016x} {:016x} {} {}",
            prop.id,
            o.ctx.log_hash,
            o.ctx.sched_hash,
            o.ctx.tape.len(),
            o.ctx.violation.map(|v| v.class).unwrap_or_default()
        );
    }
    0
}
