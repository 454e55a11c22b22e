//! The other two-sided units: `Slot`, `Snoop`, `Ring` and setting listeners.

use crate::core::*;
use crate::oracle::*;
use crate::nest::{enter, nested, Host};
use crate::probe::*;
use crate::runner::Prop;
use fundsp::prelude::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------
// Slot.

#[derive(Clone, PartialEq, Debug)]
struct Fading {
    unit: State,
    smooth: bool,
    /// Fade time in seconds.
    time: f64,
}

#[derive(Clone, PartialEq, Debug)]
pub struct SlotModel {
    outs: usize,
    sr: f64,
    current: State,
    next: Option<Fading>,
    latest: Option<Fading>,
    /// Samples faded so far.
    done: u64,
    /// Sample rate changed in the middle of a fade.
    odd: bool,
}

#[derive(Clone, Debug)]
pub struct SlotMsg(Fading);

impl SlotModel {
    fn reset(&mut self) {
        if let Some(f) = self.latest.take().or(self.next.take()) {
            self.current = f.unit;
        }
        self.next = None;
        self.current.n = 0;
    }
    fn set_sr(&mut self, sr: f64) {
        if self.next.is_some() && self.done > 0 && sr != self.sr {
            self.odd = true;
        }
        self.sr = sr;
        self.current.sr = sr as f32;
        for f in self.next.iter_mut().chain(self.latest.iter_mut()) {
            f.unit.sr = sr as f32;
        }
    }
}

impl Machine for SlotModel {
    type Msg = SlotMsg;
    fn apply(&mut self, m: &SlotMsg) {
        let mut f = m.0.clone();
        f.unit.sr = self.sr as f32;
        if self.next.is_none() {
            self.next = Some(f);
            self.done = 0;
        } else {
            self.latest = Some(f);
        }
    }
    fn unclear(&self) -> bool {
        self.odd
    }
    fn render(self, size: usize, input: &[Vec<f32>]) -> Vec<(Self, Vec<Vec<(f32, f32)>>)> {
        let frame = |i: usize| -> Vec<f32> { input.iter().map(|c| c[i]).collect() };
        let blank = || vec![vec![(0.0f32, 0.0f32); size]; self.outs];
        if self.next.is_none() {
            let mut m = self.clone();
            let mut out = blank();
            for i in 0..size {
                let x = frame(i);
                for (c, o) in out.iter_mut().enumerate() {
                    o[i].0 = m.current.value(c, &x);
                }
                m.current.n += 1;
            }
            return vec![(m, out)];
        }
        // The fade may end within a sample of its length.
        let t = self.next.as_ref().unwrap().time * self.sr;
        let left = t - self.done as f64;
        let lo = (left - 1.0 - 1.0e-6).ceil().max(0.0) as usize;
        let hi = (left + 1.0 + 1.0e-6).floor().max(0.0) as usize;
        let mut results: Vec<(Self, Vec<Vec<(f32, f32)>>)> = vec![];
        for k in lo..=hi {
            let mut m = self.clone();
            let mut out = blank();
            let mut next = m.next.take().unwrap();
            for i in 0..size {
                let x = frame(i);
                let phase = if t > 0.0 { ((m.done + i as u64) as f64 / t).min(1.0) } else { 0.0 };
                let (g0, g1) = (ease(next.smooth, 1.0 - phase), ease(next.smooth, phase));
                for (c, o) in out.iter_mut().enumerate() {
                    let a = m.current.value(c, &x);
                    let b = next.unit.value(c, &x);
                    o[i] = if i < k {
                        ((a as f64 * g0 + b as f64 * g1) as f32, 2.0e-4 * (a.abs() + b.abs()) + 1.0e-5)
                    } else {
                        (b, 0.0)
                    };
                }
                m.current.n += 1;
                next.unit.n += 1;
            }
            m.done += std::cmp::min(size, k) as u64;
            if k <= size {
                m.current = next.unit;
                m.next = m.latest.take();
                m.done = 0;
            } else {
                m.next = Some(next);
            }
            if !results.iter().any(|(r, o)| *r == m && *o == out) {
                results.push((m, out));
            }
        }
        results
    }
}

pub struct SlotCfg {
    pub class: &'static str,
    pub rt: bool,
    pub conserve: bool,
}

pub fn slot(cfg: SlotCfg) {
    let ins = range(0, 2);
    let outs = range(1, 2);
    let class = cfg.class;
    let rt = cfg.rt;
    let (slot, mut backend) = Slot::new(Probe::boxed(1, ins, outs));
    let mut model = SlotModel { outs, sr: DEFAULT_SR, current: State::new(1), next: None, latest: None, done: 0, odd: false };
    let rates = chance(1, 3) && !nested();
    if rates && chance(1, 2) {
        backend.set_sample_rate(48000.0);
        model.set_sr(48000.0);
    }
    let resets = chance(1, 3) && crate::nest::resets();
    let world = World::new(model);
    let (w1, w2) = (world.clone(), world.clone());
    let front = Rc::new(RefCell::new((Some(slot), 2u64)));
    let f1 = front.clone();
    let ops = range(1, 12);
    let set = move |f: &mut (Option<Slot>, u64), w: &Worldly<SlotModel>| {
        let uid = f.1;
        f.1 += 1;
        let smooth = chance(1, 2);
        let samples = match choose(6) {
            0 => range(4, 40) as f64,
            1 => 64.0,
            2 => range(65, 200) as f64 + 0.5,
            3 => 0.0,
            4 => range(100, 300) as f64,
            _ => 128.0,
        };
        let time = samples / 44100.0;
        trace!("set {uid} over {samples} samples (smooth {smooth})");
        begin(w, SlotMsg(Fading { unit: State::new(uid), smooth, time }));
        f.0.as_mut().unwrap().set(fade_of(smooth), time, Probe::boxed(uid, ins, outs));
        end(w);
        event(uid);
    };
    let set2 = set.clone();
    let back = Back::new(Box::new(backend), ins, outs);
    let burst = |front: &Rc<RefCell<(Option<Slot>, u64)>>| {
        // The audio thread stalls, short of the capacity of the queue.
        let n = pick(&[10, 40, 100, 400, if rt || resets || rates { 100 } else { 1000 }]);
        count("fault: audio stalled during a burst of messages");
        for _ in 0..n {
            set2(&mut front.borrow_mut(), &world);
        }
    };
    if chance(1, 40) {
        burst(&front);
    }
    let back = pair(
        &world,
        back,
        move || {
            let mut f = f1.borrow_mut();
            for _ in 0..ops {
                set(&mut f, &w1);
                yield_now();
            }
            if crash() == Crash::Front {
                trace!("frontend dropped");
                count("fault: frontend dropped");
                f.0 = None;
            }
        },
        move |back| {
            let r = if resets || rates { choose(14) } else { 13 };
            if r == 2 {
                allocate_back(&w2, back);
            } else if resets && r == 0 {
                trace!("backend reset");
                count("backend reset by the audio thread");
                let (mut a, mut f) = (0, 0);
                // Units that are still in the queue may be adopted now or faded in later.
                act_loose(&w2, back, |u| (_, a, f) = realtime(|| u.reset()), |m| m.reset());
                if rt && a + f > 0 {
                    violate("C13/allocation", format!("the audio thread made {a} allocations and {f} deallocations in a reset"));
                }
            } else if rates && r == 1 {
                let sr = pick(&[44100.0, 48000.0]);
                trace!("backend set_sample_rate {sr}");
                count("sample rate changed on the audio side");
                act_loose(&w2, back, |u| u.set_sample_rate(sr), |m| m.set_sr(sr));
            } else {
                audio_call(&w2, back, class, rt);
            }
        },
    );
    let Some(mut back) = back else {
        for _ in 0..range(0, 3) {
            set2(&mut front.borrow_mut(), &world);
        }
        if world.borrow().msgs.len() > 1 {
            nontrivial();
        }
        drop(front);
        drop(set2);
        drop(world);
        all_gone();
        return;
    };
    if crash() == Crash::None && chance(1, 40) {
        burst(&front);
    }
    for _ in 0..range(1, 6) {
        audio_call(&world, &mut back, class, rt);
    }
    // Fades end in their time.
    for _ in 0..12 {
        call_with(&world, &mut back, class, rt, false, 64);
    }
    {
        let w = world.borrow();
        if !w.candidates.gave_up {
            count("all fades ended");
        }
        if w.msgs.len() > 1 {
            nontrivial();
        }
        count_n("messages sent", w.msgs.len() as u64);
    }
    if cfg.conserve {
        let mut f = front.borrow_mut();
        set2(&mut f, &world);
        call_with(&world, &mut back, class, rt, false, 64);
        for _ in 0..12 {
            call_with(&world, &mut back, class, rt, false, 64);
        }
        set2(&mut f, &world);
        let newest = f.1 - 1;
        for uid in 1..=newest {
            let n = live(uid);
            let expected = if uid + 1 >= newest { 1 } else { 0 };
            if n != expected {
                violate("C14/conservation", format!("unit {uid} of a slot has {n} instances alive, expected {expected}"));
            }
        }
    }
    drop(back);
    drop(front);
    drop(world);
    if crash() == Crash::Front {
        all_gone();
    }
    if cfg.conserve && live_total() != 0 {
        violate("C14/conservation", format!("{} units of a slot were never dropped", live_total()));
    }
}

fn c07() {
    slot(SlotCfg { class: "C07/slot", rt: false, conserve: false });
}

// ---------------------------------------------------------------------------------------------
// Snoop.

struct SnoopWorld {
    /// Samples put in the current buffer.
    current: Vec<f32>,
    /// Buffers that were filled, and whether they had to be delivered.
    filled: VecDeque<(Vec<f32>, bool)>,
    latest: Vec<f32>,
    sample: u64,
    drops: u64,
}

pub fn snoop(class: &'static str, rt: bool) {
    let capacity = if chance(1, 2) { 1024 } else { range(2, 6) };
    if capacity < 1024 {
        with(|c| c.capacity = Some(capacity));
        count("fault: small queue");
    }
    let window = pick(&[1usize, 64, 100, 256, 32768]);
    let (snoop, backend) = Snoop::new(window);
    with(|c| c.capacity = None);
    if snoop.capacity() != window.next_power_of_two() {
        violate(class, format!("capacity() is {}", snoop.capacity()));
    }
    let w = Rc::new(RefCell::new(SnoopWorld { current: vec![], filled: VecDeque::new(), latest: vec![], sample: 0, drops: 0 }));
    let (w1, w2) = (w.clone(), w.clone());
    let snoop = Rc::new(RefCell::new(Some(snoop)));
    let s1 = snoop.clone();
    let calls = range(2, 40);
    let polls = range(1, 40);
    let resets = chance(1, 4) && crate::nest::resets();
    let mut sched = Sched::new();
    sched.spawn("front", move || {
        for _ in 0..polls {
            if chance(1, 3) {
                // Leave the queue alone for a while.
                for _ in 0..range(1, 6) {
                    yield_now();
                }
            }
            poll(class, s1.borrow_mut().as_mut().unwrap(), &w1, chance(1, 4));
            yield_now();
        }
        if crash() == Crash::Front {
            trace!("frontend dropped");
            count("fault: frontend dropped");
            *s1.borrow_mut() = None;
        }
    });
    let (mut unit, host) = enter(Box::new(An(backend)), false);
    let _keep = Host::spawn(host, &mut sched);
    sched.spawn("audio", move || {
        for _ in 0..calls {
            if resets && chance(1, 10) {
                trace!("backend reset");
                count("backend reset by the audio thread");
                unit.reset();
                w2.borrow_mut().current.clear();
                continue;
            }
            let ticks = chance(1, 3);
            let size = if ticks { range(1, 70) } else { pick(&[64, 64, range(1, 63), 0, 8 * range(1, 8)]) };
            for _ in 0..if chance(1, 4) { 3 } else { 1 } {
                let first = w2.borrow().sample;
                let input: Vec<Vec<f32>> = vec![(0..size).map(|i| input_at(0, first + i as u64)).collect()];
                // Register what this call will send before it can be received.
                {
                    let mut w = w2.borrow_mut();
                    w.sample += size as u64;
                    for x in &input[0] {
                        w.current.push(*x);
                        if w.current.len() == 64 {
                            let full = std::mem::take(&mut w.current);
                            let pending = w.filled.len();
                            let must = pending < capacity;
                            w.filled.push_back((full, must));
                        }
                    }
                }
                let (out, a, f) = render(&mut *unit, size, ticks, &input);
                log_f32(&out[0]);
                trace!("render {size}");
                with(|c| c.sim_seconds += size as f64 / 44100.0);
                if out != input {
                    violate(class, "audio was not passed through unchanged".into());
                }
                if rt && a + f > 0 {
                    violate("C13/allocation", format!("snoop made {a} allocations and {f} deallocations on the audio thread"));
                }
            }
            yield_now();
        }
    });
    // (The backend is dropped at the end of its thread.)
    sched.run();
    if crash() == Crash::Front {
        nontrivial();
        return;
    }
    poll(class, snoop.borrow_mut().as_mut().unwrap(), &w, true);
    let w = w.borrow();
    if let Some((_, _)) = w.filled.iter().find(|(_, must)| *must) {
        violate(class, "a buffer was lost although there was room for it".into());
    }
    if w.drops > 0 {
        count_n("buffers dropped by a full queue", w.drops);
    }
    if w.sample > 64 {
        nontrivial();
    }
    count_n("samples snooped", w.latest.len() as u64);
    check_window(class, snoop.borrow().as_ref().unwrap(), &w.latest);
}

fn check_window(class: &str, s: &Snoop, latest: &[f32]) {
    if s.total() != latest.len() as u64 {
        violate(class, format!("total() is {}, {} samples were received", s.total(), latest.len()));
    }
    let n = s.capacity();
    let far = [300, 511, 1000, latest.len(), latest.len().saturating_sub(1), latest.len() / 2, n / 2, n - 1];
    for i in (0..std::cmp::min(n, 300)).chain(far.into_iter().filter(|i| *i < n)) {
        let x = if i < latest.len() { latest[latest.len() - 1 - i] } else { 0.0 };
        if s.at(i) != x {
            violate(class, format!("at({i}) is {}, expected {x}", s.at(i)));
        }
    }
}

fn poll(class: &'static str, s: &mut Snoop, w: &Rc<RefCell<SnoopWorld>>, all: bool) {
    if all && chance(1, 3) {
        // `update` takes everything there is without showing it: it must advance over whole
        // buffers, so look at the count.
        let before = s.total();
        let first = w.borrow().filled.len();
        s.update();
        let n = (s.total() - before) / 64;
        if (s.total() - before) % 64 != 0 {
            violate(class, "update received part of a buffer".into());
        }
        trace!("update received {n} buffers");
        let mut w = w.borrow_mut();
        // Whatever was received, it is shown by the window; take it from there, newest first.
        let mut seen: Vec<Vec<f32>> = vec![];
        let fits = (s.capacity() / 64) as u64;
        if n > fits {
            // Cannot be seen through the window: take them as the next ones when nothing can
            // have been dropped, else give up on this run.
            if w.filled.iter().take(n as usize).all(|(_, m)| *m) && (n as usize) <= w.filled.len() {
                for _ in 0..n {
                    let (b, _) = w.filled.pop_front().unwrap();
                    w.latest.extend(b);
                }
                check_window(class, s, &w.latest);
                return;
            }
            if (n as usize) > w.filled.len() {
                violate(class, format!("received {n} buffers, only {first} were filled"));
            }
            drop(w);
            resync();
        }
        for b in (0..n as usize).rev() {
            seen.push((0..64).map(|i| s.at(b * 64 + 63 - i)).collect());
        }
        for b in seen {
            accept(class, &mut w, b);
        }
        check_window(class, s, &w.latest);
        return;
    }
    loop {
        let Some(b) = s.get() else {
            trace!("get: nothing");
            return;
        };
        if b.size() != 64 || b.len() != 64 {
            violate(class, "buffer size".into());
        }
        let b: Vec<f32> = (0..64).map(|i| b.at(i)).collect();
        trace!("get: {:?}..", b[0]);
        let mut w = w.borrow_mut();
        accept(class, &mut w, b);
        check_window(class, s, &w.latest);
        event(w.latest.len() as u64);
        if !all {
            return;
        }
    }
}

fn resync() -> ! {
    // Nothing more can be said about this run.
    count("abandoned: update hid dropped buffers");
    std::panic::resume_unwind(Box::new(SimDone));
}

fn accept(class: &str, w: &mut SnoopWorld, b: Vec<f32>) {
    while let Some((x, must)) = w.filled.pop_front() {
        if x == b {
            w.latest.extend(x);
            return;
        }
        if must {
            violate(class, format!("received a buffer beginning {:?}, expected the one beginning {:?}", b[0], x[0]));
        }
        w.drops += 1;
    }
    violate(class, format!("received a buffer beginning {:?} that is not the next part of the signal", b[0]));
}

fn c08() {
    snoop("C08/snoop", false);
}

// ---------------------------------------------------------------------------------------------
// Ring.

struct RingWorld {
    begun: Vec<f32>,
    /// Accepted frames in order, by first channel value. None: still being sent.
    fate: Vec<Option<bool>>,
    heard: usize,
    /// Upper bound on frames in the ring.
    consumed: usize,
}

pub fn ring(class: &'static str, rt: bool) {
    let capacity = pick(&[1usize, 2, 3, 8, 64, 200]);
    // The ring capacity is the caller's.
    let (sender, node) = Ring::<U2>::new(capacity);
    let w = Rc::new(RefCell::new(RingWorld { begun: vec![], fate: vec![], heard: 0, consumed: 0 }));
    let (w1, w2) = (w.clone(), w.clone());
    let sends = range(1, 60);
    let calls = range(1, 30);
    let leaves = chance(1, 3) || crash() == Crash::Front;
    let mut sched = Sched::new();
    sched.spawn("front", move || {
        let burst = pick(&[1u64, 8, 40]);
        for i in 0..sends {
            let v = (i + 1) as f32;
            let (k, room) = {
                let mut w = w1.borrow_mut();
                w.begun.push(v);
                w.fate.push(None);
                let accepted = w.fate.iter().filter(|f| **f == Some(true)).count();
                (w.fate.len() - 1, accepted.saturating_sub(w.consumed) < capacity)
            };
            let ok = sender.try_send(Frame::from([v, -v])).is_ok();
            trace!("send {v}: {ok}");
            w1.borrow_mut().fate[k] = Some(ok);
            event(ok as u64);
            if !ok && room && crash() != Crash::Back {
                violate(class, format!("frame {v} was refused although there was room"));
            }
            if !ok {
                count("frame refused by a full ring");
            }
            if choose(burst) == 0 {
                yield_now();
            }
        }
        if leaves {
            trace!("sender dropped");
            count("fault: sender dropped");
        } else {
            std::mem::forget(sender);
        }
    });
    let (mut unit, host) = enter(Box::new(node), false);
    let _keep = Host::spawn(host, &mut sched);
    let unit = {
        let slot: Rc<RefCell<Option<Box<dyn AudioUnit>>>> = Rc::new(RefCell::new(None));
        let s2 = slot.clone();
        sched.spawn("audio", move || {
            for _ in 0..calls {
                ring_call(class, rt, &mut *unit, &w2);
                yield_now();
            }
            if crash() == Crash::Back {
                trace!("ring dropped");
                count("fault: backend dropped");
                return;
            }
            *s2.borrow_mut() = Some(unit);
        });
        sched.run();
        let u = slot.borrow_mut().take();
        u
    };
    let Some(mut unit) = unit else {
        nontrivial();
        return;
    };
    // Everything that was accepted comes out.
    for _ in 0..400 {
        let left = {
            let w = w.borrow();
            w.fate.iter().filter(|f| **f == Some(true)).count().saturating_sub(w.consumed)
        };
        if left == 0 {
            break;
        }
        ring_call(class, rt, &mut *unit, &w);
    }
    let w = w.borrow();
    let accepted = w.fate.iter().filter(|f| **f == Some(true)).count();
    if accepted != w.consumed {
        violate(class, format!("{accepted} frames were accepted, {} came out", w.consumed));
    }
    if accepted > 1 {
        nontrivial();
    }
    count_n("frames", accepted as u64);
}

fn ring_call(class: &str, rt: bool, unit: &mut dyn AudioUnit, w: &Rc<RefCell<RingWorld>>) {
    let ticks = chance(1, 3);
    let size = if ticks { 1 } else { pick(&[64, range(1, 63), range(0, 8), range(1, 8)]) };
    let ready = {
        let w = w.borrow();
        w.fate.iter().filter(|f| **f == Some(true)).count().saturating_sub(w.consumed)
    };
    let (out, a, f) = render(unit, size, ticks, &[]);
    log_f32(&out[0]);
    trace!("render {size} {:?}", out[0].iter().take(4).collect::<Vec<_>>());
    with(|c| c.sim_seconds += size as f64 / 44100.0);
    if rt && a + f > 0 {
        violate("C13/allocation", format!("ring made {a} allocations and {f} deallocations on the audio thread"));
    }
    let mut w = w.borrow_mut();
    for i in 0..size {
        let (x, y) = (out[0][i], out[1][i]);
        if x == 0.0 && y == 0.0 {
            if i < ready {
                violate(class, format!("silence at sample {i} although {ready} frames were ready"));
            }
            count("underrun");
            continue;
        }
        if y != -x {
            violate(class, format!("frame ({x}, {y}) was never sent"));
        }
        // The next accepted frame, in order.
        while w.heard < w.fate.len() && w.fate[w.heard] == Some(false) {
            w.heard += 1;
        }
        if w.heard >= w.begun.len() || w.begun[w.heard] != x {
            violate(class, format!("frame {x} came out, expected {:?}", w.begun.get(w.heard)));
        }
        w.heard += 1;
        w.consumed += 1;
    }
}

fn c09() {
    ring("C09/ring", false);
}

// ---------------------------------------------------------------------------------------------
// Setting listeners.

#[derive(Clone)]
pub struct PNode<I: Size<f32>> {
    state: State,
    _m: std::marker::PhantomData<I>,
}

impl<I: Size<f32>> PNode<I> {
    pub fn new(uid: u64) -> An<Self> {
        An(PNode { state: State::new(uid), _m: std::marker::PhantomData })
    }
}

impl<I: Size<f32>> AudioNode for PNode<I> {
    const ID: u64 = 1001;
    type Inputs = I;
    type Outputs = U1;
    fn reset(&mut self) {
        self.state.n = 0;
    }
    fn set_sample_rate(&mut self, sr: f64) {
        self.state.sr = sr as f32;
    }
    fn tick(&mut self, input: &Frame<f32, I>) -> Frame<f32, U1> {
        let v = self.state.value(0, input.as_slice());
        self.state.n += 1;
        [v].into()
    }
    fn set(&mut self, setting: Setting) {
        if let Parameter::Value(v) = setting.parameter() {
            self.state.set(*v);
        }
    }
}

/// A structure of two or three probes under a listener, and how its output is computed.
#[derive(Clone, PartialEq, Debug)]
struct LModel {
    shape: usize,
    s: Vec<State>,
}

const SHAPES: usize = 9;

fn listened(shape: usize) -> (SettingSender, Box<dyn AudioUnit>) {
    let g = |uid| PNode::<U0>::new(uid);
    let f = |uid| PNode::<U1>::new(uid);
    macro_rules! l {
        ($e:expr) => {{
            let (s, n) = listen($e);
            (s, Box::new(n) as Box<dyn AudioUnit>)
        }};
    }
    match shape {
        0 => l!(g(1)),
        1 => l!(f(1)),
        2 => l!(g(1) >> f(2)),
        3 => l!(g(1) + g(2)),
        4 => l!(g(1) * g(2)),
        5 => l!(f(1) & f(2)),
        6 => l!(-(g(1) - g(2))),
        7 => l!((g(1) >> f(2)) + g(3)),
        _ => l!(busi::<U3, _, _>(|i| f(i + 1))),
    }
}

fn address(shape: usize, target: usize, s: Setting) -> Setting {
    match (shape, target) {
        (0 | 1, _) => s,
        (2..=6, 0) => s.left(),
        (2..=6, _) => s.right(),
        (7, 0) => s.left().left(),
        (7, 1) => s.left().right(),
        (7, _) => s.right(),
        _ => s.index(target),
    }
}

impl LModel {
    fn new(shape: usize) -> Self {
        let n = [1, 1, 2, 2, 2, 2, 2, 3, 3][shape];
        LModel { shape, s: (1..=n).map(State::new).collect() }
    }
    fn ins(&self) -> usize {
        [0, 1, 0, 0, 0, 1, 0, 0, 1][self.shape]
    }
    fn render(&mut self, size: usize, input: &[Vec<f32>]) -> Vec<f32> {
        (0..size)
            .map(|i| {
                let x: Vec<f32> = input.iter().map(|c| c[i]).collect();
                let s = &self.s;
                let v = match self.shape {
                    0 | 1 => s[0].value(0, &x),
                    2 => s[1].value(0, &[s[0].value(0, &[])]),
                    3 => s[0].value(0, &[]) + s[1].value(0, &[]),
                    4 => s[0].value(0, &[]) * s[1].value(0, &[]),
                    5 => s[0].value(0, &x) + s[1].value(0, &x),
                    6 => -(s[0].value(0, &[]) - s[1].value(0, &[])),
                    7 => s[1].value(0, &[s[0].value(0, &[])]) + s[2].value(0, &[]),
                    _ => s[0].value(0, &x) + s[1].value(0, &x) + s[2].value(0, &x),
                };
                for s in self.s.iter_mut() {
                    s.n += 1;
                }
                v
            })
            .collect()
    }
}

struct Sent {
    target: usize,
    value: f32,
    /// None while the send is under way.
    fate: Option<bool>,
}

struct LWorld {
    /// By sender.
    sent: Vec<Vec<Sent>>,
    /// (position in each sender's list, state).
    states: Vec<(Vec<usize>, LModel)>,
    gave_up: bool,
    sample: u64,
    calls: u64,
}

impl LWorld {
    /// All states reachable by applying settings that may have arrived; those that must have arrived are in.
    fn advance(&mut self, must: &[usize]) -> Vec<(Vec<usize>, LModel)> {
        let mut out: Vec<(Vec<usize>, LModel)> = vec![];
        let mut work = std::mem::take(&mut self.states);
        while let Some((pos, m)) = work.pop() {
            if out.iter().any(|(p, x)| *p == pos && *x == m) {
                continue;
            }
            for t in 0..pos.len() {
                if let Some(s) = self.sent[t].get(pos[t]) {
                    let mut p = pos.clone();
                    p[t] += 1;
                    if s.fate != Some(false) {
                        let mut m = m.clone();
                        m.s[s.target].set(s.value);
                        work.push((p.clone(), m));
                    }
                    if s.fate == Some(false) {
                        work.push((p, m.clone()));
                    }
                }
            }
            out.push((pos, m));
            if out.len() + work.len() > 3000 {
                self.gave_up = true;
                count("oracle gave up: too many explanations");
                return vec![];
            }
        }
        out.retain(|(p, _)| p.iter().zip(must).all(|(a, b)| a >= b));
        out
    }
}

fn listen_call(class: &str, rt: bool, unit: &mut dyn AudioUnit, w: &Rc<RefCell<LWorld>>) {
    let ticks = chance(1, 3);
    let size = if ticks { 1 } else { pick(&[64, range(1, 63), range(1, 8)]) };
    let (must, first, ins) = {
        let w = w.borrow();
        let must: Vec<usize> = w.sent.iter().map(|l| l.iter().take_while(|s| s.fate.is_some()).count()).collect();
        (must, w.sample, unit.inputs())
    };
    let input: Vec<Vec<f32>> = (0..ins).map(|c| (0..size).map(|i| input_at(c, first + i as u64)).collect()).collect();
    let (out, a, f) = render(unit, size, ticks, &input);
    log_f32(&out[0]);
    let mut w = w.borrow_mut();
    w.sample += size as u64;
    w.calls += 1;
    with(|c| c.sim_seconds += size as f64 / 44100.0);
    trace!("render {size}, settings {must:?} must be in effect");
    if rt && a + f > 0 {
        violate("C13/allocation", format!("setting listener made {a} allocations and {f} deallocations on the audio thread"));
    }
    if w.gave_up {
        return;
    }
    let states = w.advance(&must);
    if w.gave_up {
        return;
    }
    let mut next = vec![];
    let mut why = String::new();
    for (p, mut m) in states {
        let e = m.render(size, &input);
        match (0..size).find(|i| (e[*i] - out[0][*i]).abs() > 2.0e-6) {
            None => next.push((p, m)),
            Some(i) => why = format!("sample {i} is {}, expected {}", out[0][i], e[i]),
        }
    }
    if next.is_empty() {
        violate(class, format!("the output matches no order of the settings that were sent ({must:?} had been accepted): {why}"));
    }
    w.states = next;
}

pub fn listener(class: &'static str, rt: bool) {
    let small = chance(1, 3);
    if small {
        with(|c| c.capacity = Some(3));
        count("fault: small queue");
    }
    let capacity = if small { 3 } else { 64 };
    let shape = choose(SHAPES as u64) as usize;
    let (sender, unit) = listened(shape);
    with(|c| c.capacity = None);
    let senders = range(1, 3);
    let model = LModel::new(shape);
    debug_assert_eq!(model.ins(), unit.inputs());
    let w = Rc::new(RefCell::new(LWorld {
        sent: (0..senders).map(|_| vec![]).collect(),
        states: vec![(vec![0; senders], model.clone())],
        gave_up: false,
        sample: 0,
        calls: 0,
    }));
    let targets = model.s.len();
    let send = move |sender: &SettingSender, w: &Rc<RefCell<LWorld>>, t: usize| {
        let target = range(0, targets - 1);
        let value = choose(1000) as f32;
        let (k, applied) = {
            let mut w = w.borrow_mut();
            w.sent[t].push(Sent { target, value, fate: None });
            let applied: usize = (0..w.sent.len())
                .map(|u| w.states.iter().map(|(p, _)| p[u]).min().unwrap_or(0))
                .sum();
            (w.sent[t].len() - 1, applied)
        };
        let ok = sender.try_send(address(shape, target, Setting::value(value))).is_ok();
        trace!("send {value} to {target}: {ok}");
        w.borrow_mut().sent[t][k].fate = Some(ok);
        event(ok as u64);
        if !ok {
            count("setting refused by a full queue");
            let begun: usize = w.borrow().sent.iter().map(|l| l.len()).sum();
            if begun - applied <= capacity && crash() != Crash::Back && !w.borrow().gave_up {
                violate(class, "a setting was refused although there was room for it".into());
            }
        }
    };
    let burst = |w: &Rc<RefCell<LWorld>>, sender: &SettingSender| {
        count("fault: audio stalled during a burst of messages");
        for _ in 0..pick(&[5, 20, 64, 70]) {
            send(sender, w, 0);
        }
    };
    if chance(1, 20) {
        burst(&w, &sender);
    }
    let mut sched = Sched::new();
    for t in 0..senders {
        let sender = sender.clone();
        let w = w.clone();
        let n = range(1, [10, 7, 5][senders - 1]);
        sched.spawn(&format!("sender{t}"), move || {
            for _ in 0..n {
                send(&sender, &w, t);
                yield_now();
            }
        });
    }
    let slot: Rc<RefCell<Option<Box<dyn AudioUnit>>>> = Rc::new(RefCell::new(None));
    let (s2, w2) = (slot.clone(), w.clone());
    let calls = range(1, 20);
    let (mut unit, host) = enter(unit, false);
    let _keep = Host::spawn(host, &mut sched);
    sched.spawn("audio", move || {
        for _ in 0..calls {
            match choose(24) {
                1 if crate::nest::resets() => {
                    trace!("reset");
                    unit.reset();
                    for (_, m) in w2.borrow_mut().states.iter_mut() {
                        for s in m.s.iter_mut() {
                            s.n = 0;
                        }
                    }
                }
                2 if !nested() => {
                    trace!("set_sample_rate");
                    let sr = pick(&[44100.0, 48000.0]);
                    unit.set_sample_rate(sr);
                    for (_, m) in w2.borrow_mut().states.iter_mut() {
                        for s in m.s.iter_mut() {
                            s.sr = sr as f32;
                        }
                    }
                }
                _ => listen_call(class, rt, &mut *unit, &w2),
            }
            yield_now();
        }
        if crash() == Crash::Back {
            trace!("listener dropped");
            count("fault: backend dropped");
            return;
        }
        *s2.borrow_mut() = Some(unit);
    });
    let sender = if crash() == Crash::Front {
        count("fault: frontend dropped");
        drop(sender);
        None
    } else {
        Some(sender)
    };
    sched.run();
    let Some(mut unit) = slot.borrow_mut().take() else {
        nontrivial();
        return;
    };
    if let Some(sender) = &sender {
        if chance(1, 20) {
            listen_call(class, rt, &mut *unit, &w);
            burst(&w, sender);
        }
    }
    for _ in 0..3 {
        listen_call(class, rt, &mut *unit, &w);
    }
    let w = w.borrow();
    if w.calls > 2 {
        nontrivial();
    }
    count_n("settings sent", w.sent.iter().map(|l| l.len() as u64).sum());
}

fn c10() {
    listener("C10/listener", false);
}

pub fn props() -> Vec<Prop> {
    const STUB: &str = "threads (coroutines on one thread under the seeded scheduler), audio callback, contained units (probes)";
    let p = |id, title, run, rule, real| Prop { id, title, run, fresh: false, rule, real, stub: STUB, quick_s: 40.0, thorough_s: 600.0 };
    vec![
        p("C07", "Slot crossfades", c07, "units set in one thread, audio calls, resets and sample rate changes in another; non-trivial: at least two units were set", "Slot, SlotBackend, thingbuf channels (all real, hooks on)"),
        p("C08", "Snoop", c08, "audio calls of random size and form in one thread, polling in another, queue capacity and stalls drawn; non-trivial: at least one buffer was filled", "Snoop, SnoopBackend, thingbuf channels (all real, hooks on)"),
        p("C09", "Ring buffer", c09, "frames sent by one thread, audio calls in another, small and large rings, sender dropped; non-trivial: at least two frames were accepted", "Ring, thingbuf channels (all real, hooks on)"),
        p("C10", "Setting listener", c10, "one to three sender threads, audio calls in another, small and large queues, nine graph shapes; non-trivial: at least three audio calls", "SettingListener, SettingSender, Setting addressing, graph operators, thingbuf channels (all real, hooks on)"),
    ]
}
