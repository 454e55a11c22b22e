//! `Sequencer`: events are pushed and edited while the audio thread plays them.

use crate::core::*;
use crate::oracle::*;
use crate::probe::*;
use crate::runner::Prop;
use fundsp::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub struct Ev {
    pub key: u64,
    pub start: f64,
    pub end: f64,
    pub smooth: bool,
    pub fin: f64,
    pub fout: f64,
    pub state: State,
}

/// Reference: what a sequencer is, sample by sample.
#[derive(Clone, PartialEq, Debug)]
pub struct Model {
    pub events: Vec<Ev>,
    pub base: f64,
    pub k: u64,
    pub sr: f64,
    pub replay: bool,
    pub outs: usize,
    /// An event boundary falls so close to the middle of two samples that rounding decides.
    pub unclear: bool,
}

#[derive(Clone, Debug)]
pub enum Msg {
    Push(Ev),
    PushRelative(Ev),
    Edit(u64, f64, f64),
    EditRelative(u64, f64, f64),
    Reset,
}

impl Model {
    pub fn new(replay: bool, outs: usize) -> Self {
        Model { events: vec![], base: 0.0, k: 0, sr: DEFAULT_SR, replay, outs, unclear: false }
    }
    pub fn time(&self) -> f64 {
        self.base + self.k as f64 / self.sr
    }
    fn edit(&mut self, key: u64, end: f64, fout: f64) {
        for e in self.events.iter_mut() {
            if e.key == key {
                e.end = end;
                e.fout = fout;
            }
        }
    }
    fn reset(&mut self) {
        if self.replay {
            for e in self.events.iter_mut() {
                e.state.n = 0;
            }
        } else {
            self.events.clear();
        }
        self.base = 0.0;
        self.k = 0;
    }
    pub fn set_sample_rate(&mut self, sr: f64) {
        if self.sr != sr {
            let t = self.time();
            // An event that is within rounding of its end may end now or a sample later.
            if self.events.iter().any(|e| (e.end - t).abs() * self.sr.min(sr) < 2.0) {
                self.unclear = true;
            }
            self.base = t;
            self.k = 0;
            self.sr = sr;
            for e in self.events.iter_mut() {
                e.state.sr = sr as f32;
            }
        }
    }
}

fn gain(smooth: bool, x: f64) -> f64 {
    if smooth {
        ((x * 6.0 - 15.0) * x + 10.0) * x * x * x
    } else {
        use std::f64::consts::PI;
        let x = x * PI * 0.5;
        16.0 * x * (PI - x) / (5.0 * PI * PI - 4.0 * x * (PI - x))
    }
}

impl Machine for Model {
    type Msg = Msg;
    fn unclear(&self) -> bool {
        self.unclear
    }
    fn apply(&mut self, m: &Msg) {
        let t = self.time();
        match m {
            Msg::Push(e) => self.events.push(e.clone()),
            Msg::PushRelative(e) => {
                let mut e = e.clone();
                e.start += t;
                e.end += t;
                self.events.push(e);
            }
            Msg::Edit(key, end, fout) => self.edit(*key, *end, *fout),
            Msg::EditRelative(key, end, fout) => self.edit(*key, t + *end, *fout),
            Msg::Reset => self.reset(),
        }
    }
    fn render(mut self, size: usize, _input: &[Vec<f32>]) -> Vec<(Self, Vec<Vec<(f32, f32)>>)> {
        let mut out = vec![vec![(0.0f32, 0.0f32); size]; self.outs];
        let sr = self.sr;
        let sd = 1.0 / sr;
        for i in 0..size {
            let t = self.base + (self.k + i as u64) as f64 / sr;
            for e in self.events.iter_mut() {
                let a = (e.start - t) * sr;
                let b = (e.end - t) * sr;
                if (a - 0.5).abs() < 1.0e-3 || (b - 0.5).abs() < 1.0e-3 {
                    self.unclear = true;
                }
                if a >= 0.5 || b < 0.5 {
                    continue;
                }
                let mut g = 1.0f64;
                let mut loose = 0.0f64;
                if e.fin > 0.0 {
                    let x = (t - e.start) / e.fin;
                    if x < 1.0 {
                        g *= gain(e.smooth, x);
                    }
                    if (x - 1.0).abs() * e.fin < 0.6 * sd {
                        loose += (1.0 - gain(e.smooth, x)).abs();
                    }
                }
                if e.fout > 0.0 {
                    let y = (t - (e.end - e.fout)) / e.fout;
                    if y > 0.0 {
                        g *= gain(e.smooth, 1.0 - y);
                    }
                    if y.abs() * e.fout < 0.6 * sd {
                        loose += (1.0 - gain(e.smooth, 1.0 - y)).abs();
                    }
                }
                for (c, out) in out.iter_mut().enumerate() {
                    let x = e.state.value(c, &[]);
                    out[i].0 += (x as f64 * g) as f32;
                    out[i].1 += x.abs() * (4.0e-3 * if g == 1.0 && loose == 0.0 { 0.0 } else { 1.0 } + loose as f32) + 2.0e-6;
                }
                e.state.n += 1;
            }
        }
        self.k += size as u64;
        let t = self.time();
        if !self.replay {
            self.events.retain(|e| (e.end.max(e.start) - t) * sr > -1.0);
        }
        vec![(self, out)]
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub rates: bool,
    pub resets: bool,
    pub fades: bool,
    pub class: &'static str,
}

struct Known {
    id: EventId,
    start: Option<f64>,
    end: f64,
    edited: bool,
}

pub struct Front {
    pub seq: Sequencer,
    cfg: Cfg,
    known: BTreeMap<u64, Known>,
    next: u64,
    outs: usize,
    replay: bool,
    sr: f64,
}

impl Front {
    pub fn new(cfg: Cfg) -> Self {
        let replay = chance(1, 3);
        let outs = range(1, 2);
        Front { seq: Sequencer::new(replay, outs), cfg, known: BTreeMap::new(), next: 1, outs, replay, sr: DEFAULT_SR }
    }

    fn frac(&self) -> f64 {
        pick(&[0.0, 0.0, 0.25, -0.25, 0.125])
    }

    /// One random operation on the sequencer. `now` is an estimate of the current time in samples.
    /// Calls `sent` with the message just before the operation and `done` after it.
    pub fn operation(&mut self, now: f64, mut sent: impl FnMut(Msg), mut done: impl FnMut()) {
        let sr = self.sr;
        match weighted(&[5, 3, 2, 3, 2, if self.cfg.resets { 2 } else { 0 }]) {
            op @ (0..=2) => {
                let uid = self.next;
                self.next += 1;
                let unit = Probe::boxed(uid, 0, self.outs);
                let relative = op == 1;
                let start = if relative {
                    match choose(3) {
                        0 => 0.0,
                        1 => range(0, 64) as f64 + self.frac().max(0.0),
                        _ => range(0, 300) as f64 + self.frac().max(0.0),
                    }
                } else {
                    match choose(4) {
                        0 => (now + range(0, 64) as f64 + self.frac()).max(0.0),
                        1 => (now + range(0, 400) as f64 + self.frac()).max(0.0),
                        2 => (now - range(0, 100) as f64 + self.frac()).max(0.0),
                        _ => ((now / 64.0).floor() * 64.0 + 64.0 * range(0, 3) as f64).max(0.0),
                    }
                };
                let length = match choose(5) {
                    0 => f64::INFINITY,
                    1 => range(1, 30) as f64,
                    2 => range(30, 200) as f64 + self.frac(),
                    3 => 64.0 * range(1, 3) as f64,
                    _ => range(1, 8) as f64,
                };
                let (mut fin, mut fout) = (0.0, 0.0);
                if self.cfg.fades {
                    let fade = |max: f64| -> f64 {
                        let f = match choose(5) {
                            0 => 0.0,
                            1 => range(4, 30) as f64,
                            2 => range(4, 150) as f64 + 0.5,
                            3 => max,
                            _ => 64.0,
                        };
                        if f > max || f > 1.0e6 || f < 4.0 {
                            0.0
                        } else {
                            f
                        }
                    };
                    fin = fade(length);
                    fout = fade(length);
                }
                let smooth = chance(1, 2);
                let (start, length, fin, fout) = (start / sr, length / sr, fin / sr, fout / sr);
                let end = start + length;
                // Rounding must not make a fade longer than the event.
                let fin = fin.min(end - start);
                let fout = fout.min(end - start);
                let mut state = State::new(uid);
                state.sr = sr as f32;
                let ev = Ev { key: uid, start, end, smooth, fin, fout, state };
                trace!("push {uid} relative {relative} samples {:.3}..{:.3} fades {:.2} {:.2} smooth {smooth}", start * sr, end * sr, fin * sr, fout * sr);
                sent(if relative { Msg::PushRelative(ev) } else { Msg::Push(ev) });
                let id = if relative {
                    self.seq.push_relative(start, end, fade_of(smooth), fin, fout, unit)
                } else if op == 2 && end.is_finite() && (start + (end - start)) == end {
                    self.seq.push_duration(start, end - start, fade_of(smooth), fin, fout, unit)
                } else {
                    self.seq.push(start, end, fade_of(smooth), fin, fout, unit)
                };
                done();
                self.known.insert(uid, Known { id, start: if relative { None } else { Some(start) }, end, edited: false });
            }
            op @ (3 | 4) => {
                let keys: Vec<u64> = self
                    .known
                    .iter()
                    .filter(|(_, k)| {
                        if k.end == f64::INFINITY {
                            true
                        } else {
                            // Shorten absolute events again only when nothing is replayed.
                            !self.replay && k.start.is_some()
                        }
                    })
                    .filter(|(_, k)| !(self.replay && k.edited))
                    .map(|(k, _)| *k)
                    .collect();
                if keys.is_empty() {
                    return;
                }
                let key = pick(&keys);
                let (id, start, end) = {
                    let k = &self.known[&key];
                    (k.id, k.start, k.end)
                };
                let fout = if self.cfg.fades { pick(&[0.0, 8.0, 40.0, 64.0, 150.0]) } else { 0.0 } / sr;
                if let (Some(start), false) = (start, op == 4 && end == f64::INFINITY) {
                    let mut new = ((now + range(0, 200) as f64 + self.frac()) / sr).max(start);
                    if new > end {
                        new = end.min(start + range(0, 50) as f64 / sr).max(start);
                    }
                    trace!("edit {key} end sample {:.3} fade out {:.2}", new * sr, fout * sr);
                    sent(Msg::Edit(key, new, fout));
                    self.seq.edit(id, new, fout);
                    done();
                    let k = self.known.get_mut(&key).unwrap();
                    k.end = new;
                    k.edited = true;
                } else {
                    let new = pick(&[0.0, 0.0, 10.0, 64.0, 100.25]) / sr;
                    let new = if chance(1, 2) { new.max(fout) } else { new };
                    trace!("edit_relative {key} end in {:.3} samples fade out {:.2}", new * sr, fout * sr);
                    sent(Msg::EditRelative(key, new, fout));
                    self.seq.edit_relative(id, new, fout);
                    done();
                    // The end of the event is now unknown here: leave it alone.
                    let k = self.known.get_mut(&key).unwrap();
                    k.edited = true;
                    k.end = 0.0;
                    k.start = None;
                }
            }
            _ => {
                trace!("reset");
                sent(Msg::Reset);
                self.seq.reset();
                done();
                if !self.replay {
                    self.known.clear();
                }
            }
        }
        event(self.next);
    }
}

/// Without a backend: any slicing of the same history sounds the same.
pub fn plain(cfg: Cfg) {
    let mut front = Front::new(cfg);
    let model = RefCell::new(Model::new(front.replay, front.outs));
    let mut calls = 0;
    for _ in 0..range(2, 40) {
        match weighted(&[3, 4, if cfg.rates { 1 } else { 0 }]) {
            0 => {
                let now = model.borrow().time() * front.sr;
                front.operation(now.round(), |m| model.borrow_mut().apply(&m), || ());
            }
            1 => {
                let ticks = chance(1, 4);
                let size = pick(&[64, 64, range(1, 63), range(1, 64), 8 * range(1, 8), 1, 0]);
                let mut expect = None;
                model.replace_with(|m| {
                    let mut r = m.clone().render(size, &[]);
                    let (m, e) = r.pop().unwrap();
                    expect = Some(e);
                    m
                });
                let (out, _, _) = render(&mut front.seq, size, ticks, &[]);
                trace!("render {size} {} {:?}", if ticks { "ticks" } else { "block" }, out[0].iter().take(2).collect::<Vec<_>>());
                if model.borrow().unclear {
                    count("abandoned: event boundary too close to a half sample");
                    return;
                }
                with(|c| c.sim_seconds += size as f64 / model.borrow().sr);
                for ch in &out {
                    log_f32(ch);
                }
                if let Some(w) = mismatch(&expect.unwrap(), &out) {
                    violate(cfg.class, format!("sequencer output is not the sum of its events: {w}"));
                }
                let t = front.seq.time();
                if (t - model.borrow().time()).abs() > 1.0e-7 {
                    violate(cfg.class, format!("time() is {t}, {} was rendered", model.borrow().time()));
                }
                calls += 1;
            }
            _ => {
                let sr = pick(&[44100.0, 48000.0, 88200.0]);
                trace!("set_sample_rate {sr}");
                front.seq.set_sample_rate(sr);
                model.borrow_mut().set_sample_rate(sr);
                front.sr = sr;
            }
        }
    }
    if calls > 1 && front.next > 1 {
        nontrivial();
    }
}

/// With a backend.
pub fn live(cfg: Cfg, rt: bool, conserve: bool) {
    let mut front = Front::new(cfg);
    let replay = front.replay;
    let outs = front.outs;
    let mut start = Model::new(replay, outs);
    if cfg.rates && chance(1, 2) {
        front.seq.set_sample_rate(48000.0);
        start.set_sample_rate(48000.0);
        front.sr = 48000.0;
    }
    {
        let m = RefCell::new(&mut start);
        for _ in 0..range(0, 3) {
            front.operation(0.0, |msg| m.borrow_mut().apply(&msg), || ());
        }
    }
    let before = front.next;
    let backend = front.seq.backend();
    let back = Back::new(Box::new(backend), 0, outs);
    let world = World::new(start);
    let front = Rc::new(RefCell::new(front));
    let (f1, w1, w2) = (front.clone(), world.clone(), world.clone());
    let ops = range(1, 20);
    let class = cfg.class;
    if chance(1, 60) {
        burst(&front, &world, rt);
    }
    let back = pair(
        &world,
        back,
        move || {
            for _ in 0..ops {
                let now = w1.borrow().sample as f64;
                f1.borrow_mut().operation(now, |m| begin(&w1, m), || end(&w1));
                yield_now();
            }
            if crash() == Crash::Front {
                trace!("frontend dropped");
                count("fault: frontend dropped");
                f1.borrow_mut().seq = Sequencer::new(false, 1);
            }
        },
        move |back| {
            if cfg.resets && chance(1, 12) {
                count("backend reset by the audio thread");
                trace!("backend reset");
                let mut a = 0;
                let mut f = 0;
                act_with(&w2, back, |u| (_, a, f) = realtime(|| u.reset()), |m| m.reset());
                if rt && a + f > 0 {
                    violate("C13/allocation", format!("the audio thread made {a} allocations and {f} deallocations in a reset"));
                }
            } else {
                if chance(1, 20) {
                    allocate_back(&w2, back);
                }
                audio_call(&w2, back, class, rt)
            }
        },
    );
    let Some(mut back) = back else {
        for _ in 0..range(0, 4) {
            let now = world.borrow().sample as f64;
            front.borrow_mut().operation(now, |m| begin(&world, m), || end(&world));
        }
        if world.borrow().msgs.len() > 1 {
            nontrivial();
        }
        drop(front);
        drop(world);
        all_gone();
        return;
    };
    if crash() == Crash::None && chance(1, 60) {
        burst(&front, &world, rt);
    }
    for _ in 0..range(1, 8) {
        audio_call(&world, &mut back, class, rt);
    }
    if world.borrow().msgs.len() > 1 {
        nontrivial();
    }
    count_n("messages sent", world.borrow().msgs.len() as u64);
    if conserve && !replay {
        let mut front = front.borrow_mut();
        // Let every finite event end, and then let the frontend take what has been returned.
        for _ in 0..14 {
            call_with(&world, &mut back, class, rt, false, 64);
        }
        // An event that has ended is retired in the next call at the latest.
        let counted = |w: &Worldly<Model>, uid: u64, audible: bool| -> Vec<i64> {
            let w = w.borrow();
            let n = |m: &Model| m.events.iter().filter(|e| e.key == uid && (!audible || e.end > m.time().max(e.start))).count();
            w.candidates.states.iter().map(|(_, m)| n(m) as i64).collect()
        };
        let uids = before..front.next;
        let earlier: Vec<Vec<i64>> = uids.clone().map(|uid| counted(&world, uid, false)).collect();
        call_with(&world, &mut back, class, rt, false, 8);
        // Every operation of the frontend that sends something frees what has been returned.
        match choose(4) {
            0 => {
                begin(&world, Msg::Edit(0, 0.0, 0.0));
                front.seq.edit(EventId::new(), 0.0, 0.0);
            }
            1 => {
                begin(&world, Msg::EditRelative(0, 0.0, 0.0));
                front.seq.edit_relative(EventId::new(), 0.0, 0.0);
            }
            op => {
                let uid = front.next;
                front.next += 1;
                let unit = Probe::boxed(uid, 0, front.outs);
                let mut state = State::new(uid);
                state.sr = front.sr as f32;
                let ev = Ev { key: uid, start: 1.0e6, end: 2.0e6, smooth: false, fin: 0.0, fout: 0.0, state };
                if op == 2 {
                    begin(&world, Msg::Push(ev));
                    front.seq.push(1.0e6, 2.0e6, fade_of(false), 0.0, 0.0, unit);
                } else {
                    begin(&world, Msg::PushRelative(ev));
                    front.seq.push_relative(1.0e6, 2.0e6, fade_of(false), 0.0, 0.0, unit);
                }
            }
        }
        end(&world);
        if !world.borrow().candidates.gave_up {
            for (i, uid) in uids.enumerate() {
                let n = crate::probe::live(uid);
                let lo = counted(&world, uid, true).into_iter().min().unwrap_or(0);
                let hi = earlier[i].iter().copied().max().unwrap_or(0);
                if n < lo || n > hi {
                    violate("C14/conservation", format!("event {uid} has {n} instances alive, expected {lo} to {hi}"));
                }
            }
            count("retired events were counted");
        }
    }
    drop(back);
    drop(front);
    if crash() == Crash::Front {
        all_gone();
    }
    if conserve && live_total() != 0 {
        violate("C14/conservation", format!("{} event units were never dropped", live_total()));
    }
}

/// The audio thread stalls while many operations are made, short of the capacity of the queue.
fn burst(front: &Rc<RefCell<Front>>, world: &Worldly<Model>, rt: bool) {
    let n = pick(&[10, 40, 100, 300, if rt { 100 } else { 1800 }]);
    count("fault: audio stalled during a burst of messages");
    trace!("burst of {n}");
    for _ in 0..n {
        let now = world.borrow().sample as f64;
        front.borrow_mut().operation(now, |m| begin(world, m), || end(world));
    }
}

fn c05() {
    plain(Cfg { rates: chance(1, 4), resets: chance(1, 2), fades: chance(3, 4), class: "C05/sequencer" });
}

fn c06() {
    live(Cfg { rates: chance(1, 4), resets: chance(1, 2), fades: chance(1, 2), class: "C06/sequencer" }, false, false);
}

pub fn props() -> Vec<Prop> {
    const REAL: &str = "Sequencer, SequencerBackend, thingbuf channels (all real, hooks on)";
    const STUB: &str = "threads (coroutines on one thread under the seeded scheduler), audio callback, contained units (probes)";
    let p = |id, title, run, rule| Prop { id, title, run, fresh: false, rule, real: REAL, stub: STUB, quick_s: 40.0, thorough_s: 600.0 };
    vec![
        p("C05", "Sequencer timing", c05, "random pushes, edits, resets, sample rate changes and audio calls of random size; non-trivial: at least two calls and one event"),
        p("C06", "Sequencer frontend and backend", c06, "pushes, edits and resets in one thread, audio calls in another, interleaved at channel operations; non-trivial: at least two messages"),
    ]
}
