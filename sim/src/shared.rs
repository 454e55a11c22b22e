//! Shared variables and unique IDs.

use crate::core::*;
use crate::probe::*;
use crate::runner::Prop;
use fundsp::prelude::*;
use fundsp::shared::{AtomicSynth, AtomicTable, IdGenerator, Interpolation};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------
// Registers: a history of reads and writes with unique values has to be linearizable.

#[derive(Clone, Debug)]
struct Op {
    write: bool,
    value: u32,
    start: u64,
    end: u64,
}

#[derive(Default)]
struct History {
    ops: Vec<Op>,
    clock: u64,
}

impl History {
    fn now(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
}

type Hist = Rc<RefCell<History>>;

fn op<R>(h: &Hist, f: impl FnOnce() -> R, done: impl FnOnce(R) -> (bool, Vec<u32>)) {
    let start = h.borrow_mut().now();
    let r = f();
    let mut h = h.borrow_mut();
    let end = h.now();
    let (write, values) = done(r);
    for value in values {
        h.ops.push(Op { write, value, start, end });
    }
}

/// The criterion of Gibbons and Korach for histories in which every written value is unique.
fn linearizable(ops: &[Op]) -> Option<String> {
    let mut clusters: BTreeMap<u32, Vec<&Op>> = BTreeMap::new();
    for o in ops {
        clusters.entry(o.value).or_default().push(o);
    }
    let mut forward: Vec<(u64, u64, u32)> = vec![];
    let mut backward: Vec<(u64, u64, u32)> = vec![];
    for (v, c) in &clusters {
        let Some(w) = c.iter().find(|o| o.write) else {
            return Some(format!("{} was read but never written", f32::from_bits(*v)));
        };
        for o in c {
            if !o.write && o.end < w.start {
                return Some(format!("{} was read before it was written", f32::from_bits(*v)));
            }
        }
        let min_end = c.iter().map(|o| o.end).min().unwrap();
        let max_start = c.iter().map(|o| o.start).max().unwrap();
        if min_end < max_start {
            forward.push((min_end, max_start, *v));
        } else {
            backward.push((max_start, min_end, *v));
        }
    }
    forward.sort();
    for p in forward.windows(2) {
        if p[1].0 < p[0].1 {
            return Some(format!("{} and {} were each current after the other", f32::from_bits(p[0].2), f32::from_bits(p[1].2)));
        }
    }
    for b in &backward {
        for f in &forward {
            if f.0 < b.0 && b.1 < f.1 {
                return Some(format!("{} was seen again after it had been replaced by {}", f32::from_bits(f.2), f32::from_bits(b.2)));
            }
        }
    }
    None
}

fn registers(class: &'static str, rt: bool) {
    let first = 1.0f32;
    let shared = Shared::new(first);
    let h: Hist = Rc::new(RefCell::new(History::default()));
    h.borrow_mut().ops.push(Op { write: true, value: first.to_bits(), start: 0, end: 0 });
    let mut sched = Sched::new();
    let writers = range(1, 3);
    let mut next = 2.0f32;
    for t in 0..writers {
        let s = shared.clone();
        let h = h.clone();
        let n = range(1, 8);
        let base = next;
        next += n as f32;
        let v = Var::new(&shared);
        sched.spawn(&format!("writer{t}"), move || {
            for i in 0..n {
                let x = base + i as f32;
                let how = choose(3);
                trace!("write {x}");
                op(
                    &h,
                    || match how {
                        0 => s.set(x),
                        1 => s.set_value(x),
                        _ => v.set_value(x),
                    },
                    |_| (true, vec![x.to_bits()]),
                );
                yield_now();
            }
        });
    }
    for t in 0..range(0, 2) {
        let s = shared.clone();
        let h = h.clone();
        let n = range(1, 10);
        sched.spawn(&format!("reader{t}"), move || {
            for _ in 0..n {
                op(&h, || s.value(), |x| (false, vec![x.to_bits()]));
                yield_now();
            }
        });
    }
    for t in 0..range(1, 2) {
        let kind = choose(3);
        let mut unit: Box<dyn AudioUnit> = match kind {
            0 => Box::new(var(&shared)),
            1 => Box::new(var_fn(&shared, |x| (x, x + 0.5))),
            _ => Box::new(var(&shared) >> (pass() ^ (pass() * 2.0))),
        };
        let h = h.clone();
        let n = range(1, 12);
        let w = shared.clone();
        sched.spawn(&format!("audio{t}"), move || {
            let _keep = w;
            for _ in 0..n {
                let ticks = chance(1, 3);
                let size = if ticks { 1 } else { pick(&[64, range(1, 63), range(1, 8)]) };
                let mut allocs = 0;
                op(
                    &h,
                    || {
                        let (out, a, f) = render(&mut *unit, size, ticks, &[]);
                        allocs = a + f;
                        out
                    },
                    |out| {
                        log_f32(&out[0]);
                        with(|c| c.sim_seconds += size as f64 / 44100.0);
                        trace!("render {size}: {}", out[0][0]);
                        if out[0].iter().any(|x| *x != out[0][0]) {
                            violate(class, format!("a block of a shared variable is not constant: {:?}", &out[0]));
                        }
                        for i in 0..size {
                            let x = out[0][i];
                            let ok = match kind {
                                0 => true,
                                1 => out[1][i] == x + 0.5,
                                _ => out[1][i] == x * 2.0,
                            };
                            if !ok {
                                violate(class, format!("outputs {x} and {} are not of the same value", out[1][i]));
                            }
                        }
                        (false, vec![out[0][0].to_bits()])
                    },
                );
                if rt && allocs > 0 {
                    violate("C13/allocation", format!("a shared variable node made {allocs} allocations or deallocations"));
                }
                yield_now();
            }
        });
    }
    sched.run();
    let h = h.borrow();
    if let Some(why) = linearizable(&h.ops) {
        violate(class, format!("accesses to a shared variable are not linearizable: {why}"));
    }
    count_n("register operations", h.ops.len() as u64);
    if h.ops.len() > 4 {
        nontrivial();
    }
}

/// `timer` and `monitor` publish, other threads read.
fn publishers(class: &'static str, rt: bool) {
    let clock = shared(5.0);
    let level = shared(0.0);
    let which = choose(3);
    let meter = [Meter::Sample, Meter::Peak(0.01), Meter::Rms(0.005)][which as usize];
    let mut unit: Box<dyn AudioUnit> = if chance(1, 2) {
        Box::new(timer(&clock) | monitor(&level, meter))
    } else {
        Box::new(monitor(&level, meter) | timer(&clock))
    };
    let mut sr = DEFAULT_SR;
    if chance(1, 3) {
        sr = 48000.0;
        unit.set_sample_rate(sr);
    }
    // Values that were published so far, by call.
    let times: Rc<RefCell<(Vec<f64>, usize)>> = Rc::new(RefCell::new((vec![0.0], 0)));
    let levels: Rc<RefCell<(Vec<f32>, usize)>> = Rc::new(RefCell::new((vec![0.0], 0)));
    let mut sched = Sched::new();
    let resets = chance(1, 3);
    let rates = chance(1, 3);
    {
        let (clock, level, times, levels) = (clock.clone(), level.clone(), times.clone(), levels.clone());
        let n = range(1, 15);
        sched.spawn("reader", move || {
            let mut seen = (0, 0);
            for _ in 0..n {
                // What has been published by a finished call is visible.
                let from = (std::cmp::max(times.borrow().1, seen.0), std::cmp::max(levels.borrow().1, seen.1));
                let (t, l) = (clock.value(), level.value());
                trace!("time {t} level {l}");
                let ts = times.borrow();
                let ls = levels.borrow();
                let a = (from.0..ts.0.len()).find(|i| (ts.0[*i] as f32 - t).abs() <= 1.0e-6);
                let b = (from.1..ls.0.len()).find(|i| (ls.0[*i] - l).abs() <= 1.0e-5);
                let Some(a) = a else {
                    violate(class, format!("timer shows {t}, expected one of {:?}", &ts.0[from.0..]));
                };
                let Some(b) = b else {
                    violate(class, format!("monitor shows {l}, expected one of {:?}", &ls.0[from.1..]));
                };
                // Equal values cannot be told apart: keep the earliest.
                seen = (a, b);
                drop((ts, ls));
                yield_now();
            }
        });
    }
    {
        let (times, levels) = (times.clone(), levels.clone());
        let n = range(1, 15);
        sched.spawn("audio", move || {
            let mut time = 0.0f64;
            let mut sample = 0u64;
            let mut state = 0.0f64;
            let mut sr = sr;
            for _ in 0..n {
                if rates && chance(1, 8) {
                    sr = pick(&[44100.0, 22050.0, 96000.0]);
                    trace!("set_sample_rate {sr}");
                    unit.set_sample_rate(sr);
                }
                let smoothing = 0.5f64.powf(1.0 / (if which == 1 { 0.01 } else { 0.005 } * sr));
                if resets && chance(1, 8) {
                    trace!("reset");
                    times.borrow_mut().0.push(0.0);
                    unit.reset();
                    let last = times.borrow().0.len() - 1;
                    times.borrow_mut().1 = last;
                    time = 0.0;
                    state = 0.0;
                    continue;
                }
                let ticks = chance(1, 3);
                let size = if ticks { 1 } else { pick(&[64, range(1, 63), range(1, 8)]) };
                let input: Vec<Vec<f32>> = vec![(0..size).map(|i| input_at(0, sample + i as u64)).collect()];
                sample += size as u64;
                time += size as f64 / sr;
                for x in &input[0] {
                    let x = *x as f64;
                    state = match which {
                        0 => x,
                        1 => (state * smoothing).max(x.abs()),
                        _ => state * smoothing + x * x * (1.0 - smoothing),
                    };
                }
                let l = if which == 2 { state.sqrt() as f32 } else { state as f32 };
                times.borrow_mut().0.push(time);
                levels.borrow_mut().0.push(l);
                let (out, a, f) = render(&mut *unit, size, ticks, &input);
                log_f32(&out[0]);
                trace!("render {size}");
                with(|c| c.sim_seconds += size as f64 / sr);
                if out != input {
                    violate(class, "monitor did not pass audio through unchanged".into());
                }
                if rt && a + f > 0 {
                    violate("C13/allocation", format!("monitor and timer made {a} allocations and {f} deallocations"));
                }
                let last = times.borrow().0.len() - 1;
                times.borrow_mut().1 = last;
                let last = levels.borrow().0.len() - 1;
                levels.borrow_mut().1 = last;
                yield_now();
            }
        });
    }
    sched.run();
    nontrivial();
}

/// An atomic table is edited while a synth plays it.
fn table(class: &'static str, rt: bool) {
    let len = pick(&[4usize, 8, 32]);
    let start: Vec<f32> = (0..len).map(|i| i as f32 * 1000.0).collect();
    let t = Arc::new(AtomicTable::new(&start));
    // Everything ever written to an entry, and how much of that has certainly been written.
    let written: Rc<RefCell<Vec<(Vec<f32>, usize)>>> = Rc::new(RefCell::new(start.iter().map(|x| (vec![*x], 0)).collect()));
    let mut sched = Sched::new();
    {
        let (t, written) = (t.clone(), written.clone());
        let n = range(1, 20);
        sched.spawn("writer", move || {
            for k in 0..n {
                let i = range(0, len - 1);
                let v = i as f32 * 1000.0 + 8.0 + 8.0 * k as f32;
                trace!("table[{i}] = {v}");
                written.borrow_mut()[i].0.push(v);
                t.set(i, v);
                let last = written.borrow()[i].0.len() - 1;
                written.borrow_mut()[i].1 = last;
                if t.at(i) != v || t.len() != len {
                    violate(class, format!("table reads {} just after {v} was written", t.at(i)));
                }
                yield_now();
            }
        });
    }
    let mut synth = AtomicSynth::<f32>::new(t.clone());
    let how = choose(3);
    synth.set_interpolation(match how {
        0 => Interpolation::Nearest,
        1 => Interpolation::Linear,
        _ => Interpolation::Cubic,
    });
    let mut unit: Box<dyn AudioUnit> = Box::new(An(synth));
    let mut sr = pick(&[44100.0, 48000.0, 22050.0f32]);
    unit.set_sample_rate(sr as f64);
    let n = range(1, 20);
    let mut phase = 0.0f32;
    let mut seen: Vec<usize> = vec![0; len];
    sched.spawn("audio", move || {
        for _ in 0..n {
            let ticks = chance(1, 3);
            let size = if ticks { 1 } else { range(1, 64) };
            let f = uniform(100.0, 20000.0) as f32;
            match choose(16) {
                1 => {
                    count("fault: reset");
                    unit.reset();
                    phase = 0.0;
                }
                2 => {
                    count("fault: sample rate change");
                    sr = pick(&[44100.0, 48000.0, 22050.0f32]);
                    unit.set_sample_rate(sr as f64);
                }
                _ => {}
            }
            let floors: Vec<usize> = written.borrow().iter().map(|w| w.1).collect();
            let input = vec![vec![f; size]];
            let (out, a, fr) = render(&mut *unit, size, ticks, &input);
            log_f32(&out[0]);
            with(|c| c.sim_seconds += size as f64 / sr as f64);
            if rt && a + fr > 0 {
                violate("C13/allocation", format!("atomic synth made {a} allocations and {fr} deallocations"));
            }
            for i in 0..size {
                phase += f * (1.0 / sr);
                phase -= phase.floor();
                let p = len as f32 * phase;
                let j = p as usize & (len - 1);
                let w = written.borrow();
                if how > 0 {
                    interpolated(class, how == 2, p, &w, &floors, out[0][i] as f64);
                    continue;
                }
                let from = std::cmp::max(floors[j], seen[j]);
                match (from..w[j].0.len()).find(|k| w[j].0[*k] == out[0][i]) {
                    Some(k) => seen[j] = k,
                    None => {
                        let near = (p - p.round()).abs() < 1.0e-3;
                        if !near {
                            violate(class, format!("synth read {} from entry {j}, expected one of {:?}", out[0][i], &w[j].0[from..]));
                        }
                    }
                }
            }
            yield_now();
        }
    });
    sched.run();
    nontrivial();
}

/// An interpolated value comes from values that the entries around it may hold.
fn interpolated(class: &str, cubic: bool, p: f32, w: &[(Vec<f32>, usize)], floors: &[usize], x: f64) {
    let len = w.len();
    if (p - p.round()).abs() < 1.0e-3 {
        return;
    }
    let j = p as usize;
    let t = (p - j as f32) as f64;
    let at = |d: usize| -> Vec<f64> {
        let k = (j + len + d - 1) % len;
        w[k].0[floors[k]..].iter().map(|x| *x as f64).collect()
    };
    let zero = vec![0.0];
    let (l0, l1, l2, l3) = if cubic { (at(0), at(1), at(2), at(3)) } else { (zero.clone(), at(1), at(2), zero) };
    let mut best = f64::INFINITY;
    for a in &l0 {
        for b in &l1 {
            for c in &l2 {
                for d in &l3 {
                    let y = if cubic {
                        b + t / 2.0 * (c - a + t * (2.0 * a - 5.0 * b + 4.0 * c - d + t * (3.0 * (b - c) + d - a)))
                    } else {
                        b + (c - b) * t
                    };
                    best = best.min((x - y).abs());
                }
            }
        }
    }
    // Rounding of the phase counts by the slope.
    let all: Vec<f64> = [l0, l1, l2, l3].concat();
    let slope = all.iter().fold(f64::MIN, |a, b| a.max(*b)) - all.iter().fold(f64::MAX, |a, b| a.min(*b));
    let tol = 0.02 + slope * len as f64 * 4.0e-6;
    if best > tol {
        violate(class, format!("interpolated value {x} at {p} is {best} off anything the entries around it have held"));
    }
}

pub fn shared_all(class: &'static str, rt: bool) {
    match choose(4) {
        0 | 1 => registers(class, rt),
        2 => publishers(class, rt),
        _ => table(class, rt),
    }
}

fn c11() {
    shared_all("C11/shared", false);
}

// ---------------------------------------------------------------------------------------------
// IDs.

fn c12() {
    let class = "C12/id";
    const DANGER: u32 = 0xfff0_0000;
    with(|c| c.spurious = true);
    let near = range(0, 8) as u32;
    let low = match choose(5) {
        0 => DANGER - near,
        1 => 0,
        2 => DANGER.wrapping_add(near),
        3 => DANGER - 1,
        _ => near,
    };
    // Just before the upper word wraps there would be nothing left to be unique with.
    let high = pick(&[0u32, 1, 77, u32::MAX - 1000]);
    let generator = Arc::new(IdGenerator::with_state(low, high));
    let ids: Rc<RefCell<Vec<(u64, usize)>>> = Rc::new(RefCell::new(vec![]));
    let threads = range(2, 4);
    let mut sched = Sched::new();
    for t in 0..threads {
        let (g, ids) = (generator.clone(), ids.clone());
        let n = range(1, 8);
        sched.spawn(&format!("thread{t}"), move || {
            for _ in 0..n {
                let id = g.get_id();
                trace!("id {id:#x}");
                event(id);
                // What came before this point of the generator's life has been given out.
                if id < (low as u64 | (high as u64) << 32) {
                    violate(class, format!("id {id:#x} was given out before the generator reached {high:#x}:{low:#x}"));
                }
                let mut ids = ids.borrow_mut();
                if let Some((_, u)) = ids.iter().find(|(x, _)| *x == id) {
                    violate(class, format!("id {id:#x} was given to thread {u} and to thread {t}"));
                }
                ids.push((id, t));
                if (id as u32) >= DANGER {
                    count("id from the danger zone");
                }
            }
        });
    }
    sched.run();
    nontrivial();
    // The public sources of IDs.
    let mut nodes: Vec<u64> = (0..4).map(|_| NodeId::new().value()).collect();
    nodes.sort();
    nodes.dedup();
    if nodes.len() != 4 {
        violate(class, "NodeId::new() repeats itself".into());
    }
    let a: Vec<EventId> = (0..3).map(|_| EventId::new()).collect();
    if a[0] == a[1] || a[1] == a[2] || a[0] == a[2] {
        violate(class, "EventId::new() repeats itself".into());
    }
}

pub fn props() -> Vec<Prop> {
    const STUB: &str = "threads (coroutines on one thread under the seeded scheduler), audio callback";
    let p = |id, title, run, rule, real| Prop { id, title, run, fresh: false, rule, real, stub: STUB, quick_s: 40.0, thorough_s: 600.0 };
    vec![
        p("C11", "Shared variables", c11, "one to three writers, readers and audio nodes on one variable, table or meter, interleaved at every atomic access; non-trivial: at least five operations", "Shared, Var, VarFn, Timer, Monitor, AtomicTable, AtomicSynth (all real, hooks on)"),
        p("C12", "Unique IDs", c12, "two to four threads drawing IDs from a generator placed near its wrap-around, weak exchanges failing spuriously; non-trivial: every run", "IdGenerator, NodeId, EventId (all real, hooks on)"),
    ]
}
