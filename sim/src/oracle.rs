//! Checking what the audio thread rendered against a sequential reference machine, when the
//! audio thread and the control thread run concurrently.

use crate::core::*;
use crate::nest::Host;
use crate::probe::*;
use fundsp::prelude::AudioUnit;
use std::cell::RefCell;
use std::rc::Rc;

/// A sequential reference model of a unit with a control side.
pub trait Machine: Clone + PartialEq {
    type Msg;
    fn apply(&mut self, m: &Self::Msg);
    /// The specification leaves open what happens in this state.
    fn unclear(&self) -> bool {
        false
    }
    /// Render one call. Returns the possible (state, output) pairs; outputs are
    /// (value, tolerance) by channel and sample.
    fn render(self, size: usize, input: &[Vec<f32>]) -> Vec<(Self, Vec<Vec<(f32, f32)>>)>;
}

/// The audio side of the oracle: the set of model states that explain everything rendered so far.
pub struct Candidates<M: Machine> {
    pub states: Vec<(usize, M)>,
    pub gave_up: bool,
}

impl<M: Machine> Candidates<M> {
    pub fn new(model: M) -> Self {
        Candidates { states: vec![(0, model)], gave_up: false }
    }

    /// A call rendered `out`. Messages before `must` had been sent before it started,
    /// messages from `may` on had not been sent when it returned.
    pub fn observe(&mut self, class: &str, msgs: &[M::Msg], must: usize, may: usize, size: usize, input: &[Vec<f32>], out: &[Vec<f32>], blind: usize) {
        if self.gave_up {
            return;
        }
        let mut next: Vec<(usize, M)> = vec![];
        let mut why = String::new();
        for (applied, state) in std::mem::take(&mut self.states) {
            let mut state = state;
            let mut k = applied;
            loop {
                if k >= must {
                    for (after, mut expect) in state.clone().render(size, input) {
                        for c in expect.iter_mut() {
                            for e in c.iter_mut().take(blind) {
                                e.1 = f32::INFINITY;
                            }
                        }
                        if after.unclear() {
                            count("oracle gave up: a boundary within rounding of a half sample");
                            self.gave_up = true;
                            return;
                        }
                        match mismatch(&expect, out) {
                            None => {
                                if !next.iter().any(|(a, s)| *a == k && *s == after) {
                                    next.push((k, after));
                                }
                                if next.len() > 1500 {
                                    count("oracle gave up: too many explanations");
                                    self.gave_up = true;
                                    return;
                                }
                            }
                            Some(w) => {
                                if why.is_empty() {
                                    why = w;
                                }
                            }
                        }
                    }
                }
                if k >= may {
                    break;
                }
                state.apply(&msgs[k]);
                k += 1;
            }
        }
        if next.is_empty() {
            violate(
                class,
                format!("audio output matches no version the frontend has committed (visible messages {must}..={may}): {why}"),
            );
        }
        if next.len() > 1 {
            count("ambiguous call: several explanations kept");
        }
        if next.len() > 200 {
            count("oracle gave up: too many explanations");
            self.gave_up = true;
        }
        self.states = next;
    }
}

impl<M: Machine> Candidates<M> {
    /// The audio thread did something of its own (such as a reset), with the same visibility.
    pub fn act(&mut self, msgs: &[M::Msg], must: usize, may: usize, f: impl Fn(&mut M)) {
        let mut next: Vec<(usize, M)> = vec![];
        if self.gave_up {
            return;
        }
        for (applied, mut state) in std::mem::take(&mut self.states) {
            let mut k = applied;
            loop {
                if k >= must {
                    let mut after = state.clone();
                    f(&mut after);
                    if !next.iter().any(|(a, s)| *a == k && *s == after) {
                        next.push((k, after));
                    }
                    if next.len() > 1500 {
                        count("oracle gave up: too many explanations");
                        self.gave_up = true;
                        self.states = next;
                        return;
                    }
                }
                if k >= may {
                    break;
                }
                state.apply(&msgs[k]);
                k += 1;
            }
        }
        self.states = next;
    }
}

pub fn mismatch(expect: &[Vec<(f32, f32)>], out: &[Vec<f32>]) -> Option<String> {
    for c in 0..expect.len() {
        for i in 0..expect[c].len() {
            let (v, tol) = expect[c][i];
            let x = out[c][i];
            let ok = if tol == 0.0 { x == v } else { tol.is_infinite() || (x - v).abs() <= tol + 1.0e-6 };
            if !ok {
                return Some(format!("channel {c} sample {i}: got {x}, expected {v} (tolerance {tol})"));
            }
        }
    }
    None
}

pub struct World<M: Machine> {
    pub msgs: Vec<M::Msg>,
    pub done: usize,
    pub candidates: Candidates<M>,
    pub sample: u64,
    pub calls: u64,
    pub sr: f64,
    /// How many samples at the beginning are not compared.
    pub blind: u64,
}

pub type Worldly<M> = Rc<RefCell<World<M>>>;

impl<M: Machine> World<M> {
    pub fn new(start: M) -> Worldly<M> {
        Rc::new(RefCell::new(World {
            msgs: vec![],
            done: 0,
            candidates: Candidates::new(start),
            sample: 0,
            calls: 0,
            sr: 44100.0,
            blind: 0,
        }))
    }
}

/// The control thread starts an operation that sends `m`.
pub fn begin<M: Machine>(world: &Worldly<M>, m: M::Msg) {
    world.borrow_mut().msgs.push(m);
}

/// The operation has returned: calls that start from now on have to see the message.
pub fn end<M: Machine>(world: &Worldly<M>) {
    world.borrow_mut().done += 1;
}

pub struct Back {
    pub unit: Box<dyn AudioUnit>,
    pub ins: usize,
    pub outs: usize,
    pub host: Option<Host>,
    pub keep: Option<Rc<RefCell<Option<Host>>>>,
}

impl Back {
    /// The backend of a live structure, inside other structures in some runs.
    pub fn new(unit: Box<dyn AudioUnit>, ins: usize, outs: usize) -> Back {
        let (unit, host) = crate::nest::enter(unit, true);
        Back { unit, ins, outs, host, keep: None }
    }
}

/// One call to the backend on the audio thread, with the oracle.
pub fn audio_call<M: Machine>(world: &Worldly<M>, back: &mut Back, class: &'static str, rt: bool) {
    let ticks = chance(1, 4);
    let size = if ticks {
        1
    } else {
        match choose(6) {
            0 => 64,
            1 => range(1, 63),
            2 => 8 * range(1, 8),
            3 => range(0, 3),
            4 => range(1, 63),
            _ => 64,
        }
    };
    call_with(world, back, class, rt, ticks, size);
}

pub fn call_with<M: Machine>(world: &Worldly<M>, back: &mut Back, class: &'static str, rt: bool, ticks: bool, size: usize) {
    let (must, first) = {
        let w = world.borrow();
        (w.done, w.sample)
    };
    let input: Vec<Vec<f32>> = (0..back.ins)
        .map(|c| (0..size).map(|i| input_at(c, first + i as u64)).collect())
        .collect();
    let (out, a, f) = render(&mut *back.unit, size, ticks, &input);
    let mut w = world.borrow_mut();
    w.sample += size as u64;
    w.calls += 1;
    let may = w.msgs.len();
    with(|c| c.sim_seconds += size as f64 / w.sr);
    for ch in &out {
        log_f32(ch);
    }
    if may > must {
        count("render overlapped a frontend operation");
    }
    trace!("render {size} {} (messages {must}..={may}): {:?}", if ticks { "tick" } else { "block" }, out.iter().map(|c| c.iter().take(2).copied().collect::<Vec<f32>>()).collect::<Vec<_>>());
    if rt && a + f > 0 {
        violate("C13/allocation", format!("the audio thread made {a} allocations and {f} deallocations in one call of {size} samples"));
    }
    let World { msgs, candidates, blind, .. } = &mut *w;
    let n = std::cmp::min(*blind, size as u64);
    *blind -= n;
    candidates.observe(class, msgs, must, may, size, &input, &out, n as usize);
}

/// The audio thread calls `f` on the unit, which the model does as `m`.
pub fn act_with<M: Machine>(world: &Worldly<M>, back: &mut Back, f: impl FnOnce(&mut dyn AudioUnit), m: impl Fn(&mut M)) {
    let must = world.borrow().done;
    f(&mut *back.unit);
    let mut w = world.borrow_mut();
    let may = w.msgs.len();
    let World { msgs, candidates, .. } = &mut *w;
    if !candidates.gave_up {
        candidates.act(msgs, must, may, m);
    }
}

/// As `act_with`, where messages that have been sent may be taken into account before or after.
pub fn act_loose<M: Machine>(world: &Worldly<M>, back: &mut Back, f: impl FnOnce(&mut dyn AudioUnit), m: impl Fn(&mut M)) {
    f(&mut *back.unit);
    let mut w = world.borrow_mut();
    let may = w.msgs.len();
    let World { msgs, candidates, .. } = &mut *w;
    if !candidates.gave_up {
        candidates.act(msgs, 0, may, m);
    }
}

/// A hint that changes nothing of what is heard.
pub fn allocate_back<M: Machine>(world: &Worldly<M>, back: &mut Back) {
    trace!("backend allocates");
    count("backend allocates");
    act_loose(world, back, |u| u.allocate(), |_| ());
}

/// Run a control thread and an audio thread until both are finished. If the backend is the half
/// that goes away, it does so after its last call, whatever the other thread is doing.
pub fn pair<M: Machine>(world: &Worldly<M>, back: Back, front: impl FnOnce() + 'static, mut audio: impl FnMut(&mut Back) + 'static) -> Option<Back> {
    let mut sched = Sched::new();
    let calls = range(2, 30);
    sched.spawn("front", front);
    let slot: Rc<RefCell<Option<Back>>> = Rc::new(RefCell::new(None));
    let s2 = slot.clone();
    let mut back = back;
    let host = back.host.take();
    if let Some(host) = &host {
        world.borrow_mut().blind = host.blind;
    }
    back.keep = Some(Host::spawn(host, &mut sched));
    sched.spawn("audio", move || {
        for _ in 0..calls {
            audio(&mut back);
            yield_now();
        }
        if crash() == Crash::Back {
            trace!("backend dropped");
            count("fault: backend dropped");
            drop(back);
        } else {
            *s2.borrow_mut() = Some(back);
        }
    });
    sched.run();
    let b = slot.borrow_mut().take();
    b
}

/// All halves are gone: so are the units.
pub fn all_gone() {
    if live_total() != 0 {
        violate("C22/units", format!("{} units remain after both halves are gone", live_total()));
    }
}
