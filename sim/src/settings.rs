//! Settings: a unit with a setting applied is the unit its parameters describe (C27).

use crate::core::*;
use crate::runner::Prop;
use crate::timed::{audio, control, rnd, Input};
use crate::units::*;
use fundsp::hacker32::*;
use fundsp::{hacker as h64, hacker32 as h32};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

type Boxed = Box<dyn AudioUnit>;
type Make = Arc<dyn Fn(&[f32]) -> Boxed>;

const CLASS: &str = "C27/setting";

/// A kind of unit whose parameters can be set, with one input and one output.
struct Kind {
    name: &'static str,
    make: Make,
    /// Parameters to begin with and to be set.
    a: Vec<f32>,
    b: Vec<f32>,
    /// The setting, which of the parameters it sets, and where in the unit it goes.
    setting: Setting,
    sets: Vec<usize>,
    path: Vec<At>,
    /// Seconds until a difference of state is forgotten, with the parameters `b`; `None` if that
    /// cannot be told.
    memory: Option<f64>,
    /// Whether the input is a frequency.
    oscillator: bool,
}

/// One level of an address.
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    L,
    R,
    I(usize),
    N(NodeId),
}

/// The setting with an address.
fn at(setting: &Setting, path: &[At]) -> Setting {
    let mut s = setting.clone();
    for p in path {
        s = match p {
            At::L => s.left(),
            At::R => s.right(),
            At::I(i) => s.index(*i),
            At::N(id) => s.node(*id),
        };
    }
    s
}

fn freq() -> f32 {
    (3000.0 - 2700.0 * frac()) as f32
}
fn q() -> f32 {
    (0.6 + 2.0 * frac()) as f32
}
fn amp() -> f32 {
    (0.4 + 2.0 * frac()) as f32
}

macro_rules! make {
    (|$p:ident| $x:expr) => {
        Arc::new(move |$p: &[f32]| -> Boxed { Box::new($x) }) as Make
    };
}

/// Either precision.
macro_rules! prec {
    ($f:ident ( $($i:expr),* )) => {
        if chance(1, 2) {
            make!(|p| h32::$f($(p[$i]),*))
        } else {
            make!(|p| h64::$f($(p[$i] as _),*))
        }
    };
}

/// Parts of a filter setting, of a filter with `n` parameters.
fn center(n: usize, b: &[f32]) -> (Setting, Vec<usize>) {
    match n as u64 - choose(n as u64) {
        3 => (Setting::center_q_gain(b[0], b[1], b[2]), vec![0, 1, 2]),
        2 => (Setting::center_q(b[0], b[1]), vec![0, 1]),
        _ => (Setting::center(b[0]), vec![0]),
    }
}

fn filter(name: &'static str, make: Make, n: usize, linear: bool) -> Kind {
    let draw = || [freq(), q(), amp()][..n].to_vec();
    let (a, mut b) = (draw(), draw());
    // A parameter may keep its value while another one changes.
    if n > 1 && chance(1, 3) {
        let keep = choose(n as u64) as usize;
        b[keep] = a[keep];
    }
    let (setting, sets) = center(n, &b);
    Kind {
        name,
        make,
        a,
        b,
        setting,
        sets,
        memory: if linear { Some(0.08) } else { None },
        oscillator: false,
        path: vec![],
    }
}

fn other(name: &'static str, make: Make, a: Vec<f32>, b: Vec<f32>, setting: Setting, memory: Option<f64>) -> Kind {
    let sets = (0..a.len()).collect();
    Kind { name, make, a, b, setting, sets, path: vec![], memory, oscillator: false }
}

/// Coefficients of a stable biquad.
fn stable() -> Vec<f32> {
    let r = 0.95 * frac();
    let w = 3.0 * frac();
    let b = || (frac() * 2.0 - 1.0) as f32;
    vec![(-2.0 * r * w.cos()) as f32, (r * r) as f32, b(), b(), b()]
}

fn kind() -> Kind {
    match choose(40) {
        0 => filter("lowpass_hz", prec!(lowpass_hz(0, 1)), 2, true),
        1 => filter("highpass_hz", prec!(highpass_hz(0, 1)), 2, true),
        2 => filter("bandpass_hz", prec!(bandpass_hz(0, 1)), 2, true),
        3 => filter("notch_hz", prec!(notch_hz(0, 1)), 2, true),
        4 => filter("peak_hz", prec!(peak_hz(0, 1)), 2, true),
        5 => filter("allpass_hz", prec!(allpass_hz(0, 1)), 2, true),
        6 => filter("bell_hz", prec!(bell_hz(0, 1, 2)), 3, true),
        7 => filter("lowshelf_hz", prec!(lowshelf_hz(0, 1, 2)), 3, true),
        8 => filter("highshelf_hz", prec!(highshelf_hz(0, 1, 2)), 3, true),
        9 => filter("resonator_hz", prec!(resonator_hz(0, 1)), 2, true),
        10 => filter("butterpass_hz", prec!(butterpass_hz(0)), 1, true),
        11 => filter("lowpole_hz", prec!(lowpole_hz(0)), 1, true),
        12 => filter("highpole_hz", prec!(highpole_hz(0)), 1, true),
        13 => {
            let f = || (50.0 + 250.0 * frac()) as f32;
            let (a, b) = (f(), f());
            other("dcblock_hz", prec!(dcblock_hz(0)), vec![a], vec![b], Setting::center(b), Some(0.12))
        }
        14 => {
            let mut k = filter("moog_hz", prec!(moog_hz(0, 1)), 2, false);
            for p in [&mut k.a, &mut k.b] {
                p[1] *= 0.25;
            }
            let (setting, sets) = center(2, &k.b);
            (k.setting, k.sets) = (setting, sets);
            k
        }
        15 => {
            let name = pick(&["lowrez_hz", "bandrez_hz"]);
            let make = if name == "lowrez_hz" { prec!(lowrez_hz(0, 1)) } else { prec!(bandrez_hz(0, 1)) };
            let mut k = filter(name, make, 2, false);
            for p in [&mut k.a, &mut k.b] {
                p[1] *= 0.25;
            }
            let (setting, sets) = center(2, &k.b);
            (k.setting, k.sets) = (setting, sets);
            k
        }
        16 => filter("dbell_hz", prec_shape(0), 3, false),
        17 => filter("dhighpass_hz", prec_shape(1), 2, false),
        18 => filter("dlowpass_hz", prec_shape(2), 2, false),
        19 => filter("dresonator_hz", prec_shape(3), 2, false),
        20 => filter("fbell_hz", prec_shape(4), 3, false),
        21 => filter("fhighpass_hz", prec_shape(5), 2, false),
        22 => filter("flowpass_hz", prec_shape(6), 2, false),
        23 => filter("fresonator_hz", prec_shape(7), 2, false),
        24 | 25 => {
            let (a, b) = (stable(), stable());
            let s = Setting::biquad(b[0], b[1], b[2], b[3], b[4]);
            other("biquad", prec!(biquad(0, 1, 2, 3, 4)), a, b, s, Some(0.1))
        }
        26 | 27 => {
            let t = || (0.0002 + 0.003 * frac()) as f32;
            let (a, b) = (t(), t());
            other("follow", prec!(follow(0)), vec![a], vec![b], Setting::time(b), Some(0.15))
        }
        28 | 29 => {
            let t = || vec![(0.0002 + 0.003 * frac()) as f32, (0.0002 + 0.003 * frac()) as f32];
            let (a, b) = (t(), t());
            let s = Setting::attack_release(b[0], b[1]);
            other("afollow", prec!(afollow(0, 1)), a, b, s, Some(0.2))
        }
        30 => {
            let c = || (1.6 * frac() - 0.8) as f32;
            let (a, b) = (c(), c());
            let x = choose(2);
            let make: Make = Arc::new(move |p| {
                if x == 0 {
                    Box::new(allnest_c(p[0], pass()))
                } else {
                    Box::new(allnest_c(p[0], delay(0.0002)))
                }
            });
            other("allnest_c", make, vec![a], vec![b], Setting::coefficient(b), Some(0.1))
        }
        31 | 32 => {
            let d = || (0.1 + 0.9 * frac()) as f32;
            let (a, b) = (d(), d());
            other("allpole_delay", prec!(allpole_delay(0)), vec![a], vec![b], Setting::delay(b), Some(0.05))
        }
        33 | 34 => {
            let v = || (frac() * 4.0 - 2.0) as f32;
            let (a, b) = (v(), v());
            let n = choose(3);
            let make: Make = Arc::new(move |p| match n {
                0 => Box::new(mul(1.0) + dc(p[0])),
                1 => Box::new(pass() * constant(p[0])),
                _ => Box::new((pass() | dc((p[0], p[0]))) >> join::<U3>()),
            });
            let mut k = other("constant", make, vec![a], vec![b], Setting::value(b), Some(0.0));
            k.path = if n == 2 { vec![At::L, At::R] } else { vec![At::R] };
            k
        }
        35 => {
            let v = || (frac() * 2.0 - 1.0) as f32;
            let (a, b) = (v(), v());
            let make: Make = Arc::new(|p| Box::new(pan(p[0]) >> (mul(0.3) + mul(1.0))));
            let mut k = other("pan", make, vec![a], vec![b], Setting::pan(b), Some(0.0));
            k.path = vec![At::L];
            k
        }
        36 | 37 => {
            let v = || frac() as f32;
            let (a, b) = (v(), v());
            let make = if chance(1, 2) { make!(|p| dsf_saw_r(p[0])) } else { make!(|p| dsf_square_r(p[0])) };
            let mut k = other("dsf", make, vec![a], vec![b], Setting::roughness(b), Some(0.0));
            k.oscillator = true;
            k
        }
        _ => {
            let v = || frac() as f32;
            let (a, b) = (v(), v());
            let f = 300.0 + 3000.0 * frac() as f32;
            let make: Make = Arc::new(move |p| Box::new((pass() | dc(f)) >> hold(p[0])));
            let mut k = other("hold", make, vec![a], vec![b], Setting::variability(b), None);
            k.path = vec![At::R];
            k
        }
    }
}

fn prec_shape(i: u64) -> Make {
    match i {
        0 => Arc::new(|p| Box::new(h32::dbell_hz(Tanh(0.8), p[0], p[1], p[2]))),
        1 => Arc::new(|p| Box::new(h32::dhighpass_hz(Softsign(0.7), p[0], p[1]))),
        2 => Arc::new(|p| Box::new(h64::dlowpass_hz(Tanh(0.9), p[0], p[1]))),
        3 => Arc::new(|p| Box::new(h32::dresonator_hz(Tanh(0.8), p[0], p[1]))),
        4 => Arc::new(|p| Box::new(h32::fbell_hz(Atan(0.8), p[0], p[1], p[2]))),
        5 => Arc::new(|p| Box::new(h32::fhighpass_hz(Softsign(0.7), p[0], p[1]))),
        6 => Arc::new(|p| Box::new(h64::flowpass_hz(Tanh(0.9), p[0], p[1]))),
        _ => Arc::new(|p| Box::new(h32::fresonator_hz(Tanh(0.8), p[0], p[1]))),
    }
}

/// A structure around a unit. The neighbour has the parameters to begin with.
#[derive(Clone, Copy, Debug)]
struct Wrap {
    kind: u64,
    /// Which place in it.
    place: usize,
    /// Whether the neighbour is of the same kind.
    twin: bool,
}

const WRAPS: u64 = 17;

type One = An<Unit<U1, U1>>;

fn one(x: &Boxed) -> One {
    unit::<U1, U1>(x.clone())
}

/// Wrap `x`; returns the whole and the address of `x` in it.
fn wrap(w: Wrap, x: Boxed, sib: &Boxed, oscillator: bool) -> (Boxed, Vec<At>) {
    let plain: Boxed = Box::new(pass());
    let beside = if w.twin { sib } else { &plain };
    // An oscillator in a row would take audio for a frequency.
    let before = if w.twin && !oscillator { sib } else { &plain };
    let side = w.place % 2;
    let three = w.place % 3;
    let at3 = |i: u64| if i as usize == three { one(&x) } else { one(beside) };
    let lr = if side == 0 { At::L } else { At::R };
    macro_rules! sides {
        ($y:expr, |$a:ident, $b:ident| $e:expr) => {{
            let ($a, $b) = if side == 0 { (one(&x), one($y)) } else { (one($y), one(&x)) };
            Box::new($e) as Boxed
        }};
    }
    match w.kind {
        0 => (sides!(before, |a, b| a >> b), vec![lr]),
        1 => (sides!(beside, |a, b| a & b), vec![lr]),
        2 => (sides!(beside, |a, b| (a ^ b) >> join::<U2>()), vec![At::L, lr]),
        3 => (sides!(beside, |a, b| split::<U2>() >> (a | b) >> join::<U2>()), vec![At::L, At::R, lr]),
        4 => (sides!(beside, |a, b| split::<U2>() >> (a + b)), vec![At::R, lr]),
        5 => (sides!(beside, |a, b| split::<U2>() >> (a * b)), vec![At::R, lr]),
        6 => (Box::new(busi::<U3, _, _>(at3)), vec![At::I(three)]),
        7 if !oscillator => (Box::new(pipei::<U3, _, _>(at3)), vec![At::I(three)]),
        8 => (Box::new(branchi::<U3, _, _>(at3) >> join::<U3>()), vec![At::L, At::I(three)]),
        9 => (Box::new(split::<U3>() >> stacki::<U3, _, _>(at3) >> join::<U3>()), vec![At::L, At::R, At::I(three)]),
        10 => (Box::new(split::<U3>() >> sumi::<U3, _, _>(at3)), vec![At::R, At::I(three)]),
        11 => {
            let mut net = Net::new(1, 1);
            let (mut a, mut b) = (x.clone(), beside.clone());
            if side == 1 {
                std::mem::swap(&mut a, &mut b);
            }
            let (a, b) = (net.push(a), net.push(b));
            let j = net.push(Box::new(join::<U2>()));
            net.connect_input(0, a, 0);
            net.connect_input(0, b, 0);
            net.connect(a, 0, j, 0);
            net.connect(b, 0, j, 1);
            net.pipe_output(j);
            (Box::new(net), vec![At::N(if side == 0 { a } else { b })])
        }
        12 => (Box::new(!one(&x)), vec![]),
        13 => (Box::new(-one(&x)), vec![]),
        14 => (Box::new(one(&x) * 0.7), vec![]),
        15 => (Box::new(update(one(&x), 0.003, |_t: f32, _dt: f32, _x: &mut Unit<U1, U1>| ())), vec![]),
        _ => (Box::new(BigBlockAdapter::new(x)), vec![]),
    }
}

/// The structure and the address of the unit in it.
fn build(wraps: &[Wrap], k: &Kind, p: &[f32]) -> (Boxed, Vec<At>) {
    let sib = (k.make)(&k.a);
    let mut x = (k.make)(p);
    let mut path = k.path.clone();
    for w in wraps {
        let (y, mut outer) = wrap(*w, x, &sib, k.oscillator);
        outer.extend(path);
        path = outer;
        x = y;
    }
    (x, path)
}

/// How settings travel.
enum Way {
    Direct,
    Listener(SettingSender),
    Frontend(Net),
}

struct Rig {
    h: Host,
    way: Way,
    path: Vec<At>,
}

impl Rig {
    fn new(wraps: &[Wrap], k: &Kind, p: &[f32], way: u64) -> Rig {
        let (x, mut path) = build(wraps, k, p);
        let (x, way): (Boxed, Way) = match way {
            1 => {
                let (sender, x) = listen(one(&x));
                (Box::new(x), Way::Listener(sender))
            }
            2 => {
                let mut net = Net::new(1, 1);
                let id = net.push(x);
                net.pipe_input(id);
                net.pipe_output(id);
                path.insert(0, At::N(id));
                let b = net.backend();
                (Box::new(b), Way::Frontend(net))
            }
            _ => (x, Way::Direct),
        };
        Rig { h: Host::new(x, garbage()), way, path }
    }
    /// Send a setting to the unit.
    fn send(&mut self, s: Setting) {
        if !matches!(self.way, Way::Direct) && chance(1, 4) {
            // The audio side has what was sent before and then this.
            count("setting made on the audio side");
            self.h.unit.set(s);
            return;
        }
        match &mut self.way {
            Way::Direct => self.h.unit.set(s),
            Way::Listener(l) => {
                if l.try_send(s).is_err() {
                    violate(CLASS, "the listener has no room for a setting".into());
                }
            }
            Way::Frontend(net) => net.set(s),
        }
    }
    fn set(&mut self, s: &Setting) {
        let s = at(s, &self.path);
        self.send(s);
    }
    fn play(&mut self, samples: usize, value: &dyn Fn(usize, u64) -> f32) -> Vec<f32> {
        let mut out = vec![vec![]];
        for c in schedule(samples) {
            self.h.call_with(c, value, &mut out, false);
        }
        log_f32(&out[0]);
        out.remove(0)
    }
}

fn compare(what: &str, k: &Kind, got: &[f32], want: &[f32]) {
    let peak = want.iter().fold(1.0f32, |m, x| m.max(x.abs()));
    for i in 0..want.len() {
        if !((got[i] - want[i]).abs() <= 1.0e-3 * peak) {
            violate(CLASS, format!("{}: {what}: sample {i} is {}, not {}", k.name, got[i], want[i]));
        }
    }
}

const RATES: [f64; 4] = [44100.0, 48000.0, 22050.0, 96000.0];

/// A setting the unit has no use for.
fn foreign(k: &Kind) -> Setting {
    let v = frac() as f32;
    let all = [
        Setting::value(v),
        Setting::delay(v),
        Setting::time(v),
        Setting::attack_release(v, v),
        Setting::roughness(v),
        Setting::variability(v),
        Setting::pan(v),
        Setting::seed(choose(100)),
        Setting::interval(v),
        Setting::biquad(v, v, v, v, v),
        Setting::center_q(v * 1000.0, v),
        Setting::phase(v),
    ];
    let same = |a: &Setting, b: &Setting| std::mem::discriminant(a.parameter()) == std::mem::discriminant(b.parameter());
    // Filters may make something of any filter setting, and an oscillator has a phase.
    let filter = matches!(k.setting.parameter(), Parameter::Center(_) | Parameter::CenterQ(..) | Parameter::CenterQGain(..));
    let n = all.len() - if filter { 2 } else { 0 } - if k.oscillator { 1 } else { 0 };
    let s = all[choose(n as u64) as usize].clone();
    if same(&s, &k.setting) {
        Setting::default()
    } else {
        s
    }
}

fn units() {
    let k = kind();
    for b in k.name.bytes().take(6) {
        mark(b as u64);
    }
    let mut wraps: Vec<Wrap> = vec![];
    let mut levels = k.path.len();
    let way = choose(3);
    if way == 2 {
        levels += 1;
    }
    for _ in 0..choose(4) {
        let w = Wrap { kind: choose(WRAPS), place: choose(6) as usize, twin: chance(1, 2) };
        let x: Boxed = Box::new(pass());
        let n = wrap(w, x.clone(), &x, k.oscillator).1.len();
        if levels + n <= 4 {
            levels += n;
            wraps.push(w);
        }
    }
    for w in &wraps {
        mark(100 + w.kind);
    }
    mark(way);
    // What the parameters will be.
    let mut want = k.a.clone();
    for i in &k.sets {
        want[*i] = k.b[*i];
    }
    trace!("{} {:?} -> {want:?} in {wraps:?}, way {way}", k.name, k.a);
    let input: Input = if k.oscillator { control(40.0, 4000.0) } else { audio(1.0) };
    let value = |_: usize, n: u64| input(n);
    let mut rate = pick(&RATES);
    let mut x = Rig::new(&wraps, &k, &k.a, way);
    let mut y = Rig::new(&wraps, &k, &want, 0);
    if way > 0 {
        // The reference is in the same place, for the sake of its random numbers.
        y = Rig::new(&wraps, &k, &want, way);
    }
    if rate != 44100.0 || chance(1, 2) {
        x.h.unit.set_sample_rate(rate);
        y.h.unit.set_sample_rate(rate);
    }
    match choose(5) {
        0 => {
            // Before any sound.
            x.set(&k.setting);
            if chance(1, 3) {
                rate = pick(&RATES);
                count("fault: sample rate change");
                x.h.unit.set_sample_rate(rate);
                y.h.unit.set_sample_rate(rate);
            }
            let got = x.play(500, &value);
            let want = y.play(500, &value);
            compare("set at the beginning", &k, &got, &want);
        }
        1 => {
            // Then a reset.
            let n = range(1, 500);
            x.play(n, &value);
            several(&mut x, &k);
            x.set(&k.setting);
            if chance(1, 2) {
                x.play(range(1, 100), &value);
            }
            if chance(1, 2) {
                rate = pick(&RATES);
                count("fault: sample rate change");
                x.h.unit.set_sample_rate(rate);
                y.h.unit.set_sample_rate(rate);
            }
            count("fault: reset");
            x.h.unit.reset();
            y.h.n = x.h.n;
            let got = x.play(500, &value);
            let want = y.play(500, &value);
            compare("set, then reset", &k, &got, &want);
        }
        2 => {
            // On the way.
            let Some(memory) = k.memory else { return };
            let rows = wraps.iter().filter(|w| matches!(w.kind, 0 | 7)).count() as f64;
            let memory = (memory * (1.0 + 2.0 * rows) * rate) as usize;
            let n = range(1, 500);
            x.play(n, &value);
            several(&mut x, &k);
            x.set(&k.setting);
            if chance(1, 4) {
                count("fault: clone");
                // The clone of a listener hears nothing, so what was sent has to be heard first.
                x.play(1, &value);
                x.h.unit = x.h.unit.clone();
            }
            let since = x.h.n as usize + memory;
            let m = since + 300 - x.h.n as usize;
            let got = x.play(m, &value);
            let want = y.play(since + 300, &value);
            compare("set on the way", &k, &got[got.len() - 300..], &want[want.len() - 300..]);
        }
        3 => {
            // Settings that mean nothing: the same values again, another kind of setting, another address.
            let mut y = Rig::new(&wraps, &k, &k.a, way);
            y.h.unit.set_sample_rate(rate);
            let mut got = vec![];
            for _ in 0..range(1, 6) {
                let n = range(1, 200);
                got.extend(x.play(n, &value));
                match choose(3) {
                    0 => {
                        count("fault: foreign setting");
                        let s = foreign(&k);
                        trace!("foreign setting");
                        x.set(&s);
                    }
                    1 => {
                        let mut path = x.path.clone();
                        if path.is_empty() {
                            continue;
                        }
                        count("fault: foreign address");
                        let i = choose(path.len() as u64) as usize;
                        trace!("foreign address at level {i} of {path:?}");
                        match path[i] {
                            At::N(_) => {
                                path[i] = if chance(1, 2) { At::N(NodeId::new()) } else { At::L };
                            }
                            At::I(_) => {
                                path[i] = pick(&[At::L, At::R]);
                            }
                            _ => {
                                path[i] = At::I(choose(2) as usize);
                            }
                        }
                        if chance(1, 3) {
                            path.truncate(i);
                            // A unit does not look at an address, so the rest may not be cut where it is.
                            if i >= x.path.len() {
                                continue;
                            }
                        }
                        let s = at(&k.setting, &path);
                        x.send(s);
                    }
                    _ => {
                        // Settings are in single precision, and so are the parameters.
                        count("fault: same setting");
                        let s = again(&k);
                        x.set(&s);
                    }
                }
            }
            got.extend(x.play(200, &value));
            let want = y.play(got.len(), &value);
            compare("nothing was set", &k, &got, &want);
        }
        _ => {
            // Only the clone or the original is set.
            if way > 0 {
                return;
            }
            let mut z = Rig::new(&wraps, &k, &k.a, way);
            z.h.unit.set_sample_rate(rate);
            let n = range(1, 300);
            let mut got = x.play(n, &value);
            count("fault: clone");
            let mut twin = Rig { h: Host::new(x.h.unit.clone(), garbage()), way: Way::Direct, path: x.path.clone() };
            twin.h.n = x.h.n;
            if chance(1, 2) {
                std::mem::swap(&mut twin, &mut x);
            }
            twin.set(&k.setting);
            let a = twin.play(400, &value);
            got.extend(x.play(400, &value));
            let want = z.play(got.len(), &value);
            compare("a clone or the original was set", &k, &got, &want);
            // The one that was set does what another does that is set at that time.
            let mut z = Rig::new(&wraps, &k, &k.a, way);
            z.h.unit.set_sample_rate(rate);
            z.play(n, &value);
            z.set(&k.setting);
            let want = z.play(400, &value);
            compare("the setting of a clone", &k, &a, &want);
        }
    }
    nontrivial();
}

/// Settings before the one that counts.
fn several(x: &mut Rig, k: &Kind) {
    if chance(1, 3) {
        count("several settings in a row");
        for _ in 0..range(1, 4) {
            let s = if chance(1, 2) { again(k) } else { k.setting.clone() };
            x.set(&s);
        }
        let s = again(k);
        x.set(&s);
    }
}

/// The setting with the values that the unit has already.
fn again(k: &Kind) -> Setting {
    let a = &k.a;
    match k.setting.parameter() {
        Parameter::Center(_) => Setting::center(a[0]),
        Parameter::CenterQ(..) => Setting::center_q(a[0], a[1]),
        Parameter::CenterQGain(..) => Setting::center_q_gain(a[0], a[1], a[2]),
        Parameter::Value(_) => Setting::value(a[0]),
        Parameter::Coefficient(_) => Setting::coefficient(a[0]),
        Parameter::Biquad(..) => Setting::biquad(a[0], a[1], a[2], a[3], a[4]),
        Parameter::Delay(_) => Setting::delay(a[0]),
        Parameter::Time(_) => Setting::time(a[0]),
        Parameter::Roughness(_) => Setting::roughness(a[0]),
        Parameter::Variability(_) => Setting::variability(a[0]),
        Parameter::Pan(_) => Setting::pan(a[0]),
        Parameter::AttackRelease(..) => Setting::attack_release(a[0], a[1]),
        _ => Setting::default(),
    }
}

/// A bank of biquads, each with its own coefficients, and single biquads, step by step.
fn bank() {
    let seed = choose(1 << 20);
    let single = chance(1, 3);
    let n = if single { 1 } else { 8 };
    let x: Boxed = if single { Box::new(biquad(0.0, 0.0, 0.0, 0.0, 0.0)) } else { Box::new(biquad_bank()) };
    let mut h = Host::new(x, garbage());
    let mut coefs = vec![vec![0.0f32; 5]; n];
    let mut state = vec![[0.0f64; 4]; n];
    let value = |c: usize, i: u64| rnd(seed + c as u64, i) * 2.0 - 1.0;
    for c in 0..n {
        set_bank(&mut h, single, c, &mut coefs);
    }
    for _ in 0..range(1, 8) {
        let first = h.n;
        let mut out = vec![vec![]; n];
        for c in schedule(range(1, 200)) {
            h.call_with(c, &value, &mut out, false);
        }
        for c in 0..n {
            log_f32(&out[c]);
            let s = &mut state[c];
            for (i, y) in out[c].iter().enumerate() {
                let x = value(c, first + i as u64) as f64;
                let k: Vec<f64> = coefs[c].iter().map(|v| *v as f64).collect();
                let w = k[2] * x + k[3] * s[0] + k[4] * s[1] - k[0] * s[2] - k[1] * s[3];
                *s = [x, s[0], w, s[2]];
                if !((*y as f64 - w).abs() <= 1.0e-3 * (1.0 + w.abs())) {
                    violate(CLASS, format!("biquad channel {c} of {n}: sample {} is {y}, not {w}", first + i as u64));
                }
            }
        }
        match choose(6) {
            0 => {
                count("fault: reset");
                h.unit.reset();
                state = vec![[0.0; 4]; n];
            }
            1 => {
                count("fault: clone");
                let mut c = h.unit.clone();
                std::mem::swap(&mut c, &mut h.unit);
                c.set(Setting::biquad(0.1, 0.1, 0.1, 0.1, 0.1).index(0));
            }
            2 => h.unit.set_sample_rate(pick(&RATES)),
            _ => {
                let c = choose(n as u64) as usize;
                set_bank(&mut h, single, c, &mut coefs);
            }
        }
    }
    nontrivial();
}

fn set_bank(h: &mut Host, single: bool, c: usize, coefs: &mut [Vec<f32>]) {
    // Changing coefficients in direct form must not blow up over a few changes: small poles.
    let mut k = stable();
    k[0] *= 0.5;
    k[1] *= 0.25;
    let s = Setting::biquad(k[0], k[1], k[2], k[3], k[4]);
    h.unit.set(if single { s } else { s.index(c) });
    coefs[c] = k;
}

/// The methods of filters with fixed parameters.
fn methods() {
    let seed = choose(1 << 20);
    let value = move |_: usize, n: u64| rnd(seed, n) * 2.0 - 1.0;
    let rate = pick(&RATES);
    macro_rules! case {
        ($name:expr, $make:expr, $t:ty, $svf:ident) => {{
            let p0 = [freq(), q(), amp()];
            let mut p = p0;
            let mut x = $make(p[0] as _, p[1] as _, p[2] as _);
            x.set_sample_rate(rate);
            let steps = range(1, 5);
            let mut calls = vec![];
            for _ in 0..steps {
                let r = [freq(), q(), amp()];
                match choose(5) {
                    0 => {
                        x.set_gain(r[2] as $t);
                        p[2] = r[2];
                        calls.push("set_gain");
                    }
                    1 => {
                        x.set_q(r[1] as $t);
                        p[1] = r[1];
                        calls.push("set_q");
                    }
                    2 => {
                        x.set_center(r[0] as $t);
                        p[0] = r[0];
                        calls.push("set_center");
                    }
                    3 => {
                        x.set_center_q(r[0] as $t, r[1] as $t);
                        (p[0], p[1]) = (r[0], r[1]);
                        calls.push("set_center_q");
                    }
                    _ => {
                        x.set_center_q_gain(r[0] as $t, r[1] as $t, r[2] as $t);
                        p = r;
                        calls.push("set_center_q_gain");
                    }
                }
                if chance(1, 3) {
                    for i in 0..range(1, 20) {
                        x.filter_mono(value(0, i as u64));
                    }
                    x.reset();
                }
            }
            let mut y = $make(p[0] as _, p[1] as _, p[2] as _);
            y.set_sample_rate(rate);
            for i in 0..300 {
                let v = value(0, i);
                let (a, b) = (x.filter_mono(v), y.filter_mono(v));
                if !((a - b).abs() <= 1.0e-3 * (1.0 + b.abs())) {
                    violate(CLASS, format!("{}: after {calls:?}: sample {i} is {a}, not {b}", $name));
                }
            }
        }};
    }
    let i = choose(10);
    mark(i);
    match i {
        0 => case!("bell_hz", h32::bell_hz, f32, svf),
        1 => case!("lowshelf_hz", h32::lowshelf_hz, f32, svf),
        2 => case!("highshelf_hz", h64::highshelf_hz, f64, svf),
        3 => case!("lowpass_hz", |f: f32, q: f32, _: f32| h32::lowpass_hz(f, q), f32, svf),
        4 => case!("highpass_hz", |f: f32, q: f32, _: f32| h64::highpass_hz(f, q), f64, svf),
        5 => case!("bandpass_hz", |f: f32, q: f32, _: f32| h32::bandpass_hz(f, q), f32, svf),
        6 => case!("notch_hz", |f: f32, q: f32, _: f32| h32::notch_hz(f, q), f32, svf),
        7 => case!("dbell_hz", |f: f32, q: f32, g: f32| h32::dbell_hz(Tanh(0.5), f, q, g), f32, biquad),
        8 => case!("fbell_hz", |f: f32, q: f32, g: f32| h32::fbell_hz(Tanh(0.5), f, q, g), f32, biquad),
        _ => case!("dlowpass_hz", |f: f32, q: f32, _: f32| h32::dlowpass_hz(Tanh(0.5), f, q), f32, biquad),
    }
    nontrivial();
}

/// Phases and seeds, which count from the next reset.
fn beginnings() {
    let class = CLASS;
    let f = 50.0 + 2000.0 * frac() as f32;
    let p = choose(1024) as f32 / 1024.0;
    let rate = pick(&RATES);
    let value = move |c: usize, _: u64| if c == 0 { f } else { 0.4 };
    let which = choose(9);
    mark(which);
    let osc = |i: u64, hz: bool| -> Boxed {
        match (i, hz) {
            (0, false) => Box::new(sine()),
            (0, true) => Box::new(sine_hz(f)),
            (1, false) => Box::new(ramp()),
            (1, true) => Box::new(ramp_hz(f)),
            (2, false) => Box::new(saw()),
            (2, true) => Box::new(saw_hz(f)),
            (3, false) => Box::new(poly_saw()),
            (3, true) => Box::new(poly_saw_hz(f)),
            (4, false) => Box::new(poly_square()),
            (4, true) => Box::new(poly_square_hz(f)),
            (5, false) => Box::new(poly_pulse()),
            (5, true) => Box::new(poly_pulse_hz(f, 0.4)),
            (6, false) => Box::new(pulse()),
            (6, true) => Box::new(dc((f, 0.4)) >> pulse()),
            (7, false) => Box::new(dsf_saw_r(0.5)),
            (7, true) => Box::new(dc(f) >> dsf_saw_r(0.5)),
            (_, false) => Box::new(triangle()),
            (_, true) => Box::new(triangle_hz(f)),
        }
    };
    if chance(1, 3) {
        // Noise.
        let seed = choose(1 << 16);
        let make = |i: u64| -> (Boxed, Vec<At>) {
            match i {
                0 => (Box::new(noise()), vec![]),
                1 => (Box::new(mls()), vec![]),
                2 => (Box::new(pink()), vec![At::L]),
                3 => (Box::new(brown()), vec![At::L]),
                _ => (Box::new(mls_bits(17)), vec![]),
            }
        };
        let built = |i: u64| -> Boxed {
            match i {
                0 => Box::new(noise().seed(seed)),
                1 => Box::new(mls().seed(seed)),
                2 => Box::new(pink().seed(seed)),
                3 => Box::new(brown().seed(seed)),
                _ => Box::new(mls_bits(17).seed(seed)),
            }
        };
        let i = choose(5);
        mark(20 + i);
        // One of them is elsewhere and has been used.
        let (x, path) = make(i);
        let two = x.clone();
        let used = chance(1, 2);
        let (x, path): (Boxed, Vec<At>) = if chance(1, 2) {
            let s = one_out(x) + dc(0.0);
            (Box::new(s), [vec![At::L], path].concat())
        } else {
            (x, path)
        };
        let mut x = Host::new(x, garbage());
        x.unit.set_sample_rate(rate);
        let mut out = vec![vec![]];
        if used {
            for c in schedule(range(1, 200)) {
                x.call_with(c, &value, &mut out, false);
            }
        }
        x.unit.set(at(&Setting::seed(seed), &path));
        count("fault: reset");
        x.unit.reset();
        let mut y = Host::new(built(i), garbage());
        y.unit.set_sample_rate(rate);
        let (mut a, mut b) = (vec![vec![]], vec![vec![]]);
        for c in schedule(200) {
            x.call_with(c, &value, &mut a, false);
        }
        for c in schedule(200) {
            y.call_with(c, &value, &mut b, false);
        }
        log_f32(&a[0]);
        for n in 0..200 {
            if !((a[0][n] - b[0][n]).abs() < 1.0e-4) {
                violate(class, format!("noise {i} with seed {seed}: sample {n} is {} in one place and {} in another", a[0][n], b[0][n]));
            }
        }
        drop(two);
        nontrivial();
        return;
    }
    // A phase set in whichever way is a phase: compare with the oscillator that has come to it.
    let hz = chance(1, 2);
    let mut x = Host::new(osc(which, hz), garbage());
    x.unit.set_sample_rate(rate);
    let mut out = vec![vec![]];
    if chance(1, 2) {
        for c in schedule(range(1, 200)) {
            x.call_with(c, &value, &mut out, false);
        }
    }
    x.unit.set(if hz { Setting::phase(p).right() } else { Setting::phase(p) });
    count("fault: reset");
    x.unit.reset();
    let mut a = vec![vec![]];
    for c in schedule(200) {
        x.call_with(c, &value, &mut a, false);
    }
    log_f32(&a[0]);
    let tau = std::f64::consts::TAU;
    for n in 0..200u64 {
        // DSF advances before the first sample.
        let k = if which == 7 { n + 1 } else { n };
        let ph = (p as f64 + k as f64 * f as f64 / rate).rem_euclid(1.0);
        let y = a[0][n as usize] as f64;
        // Away from the steps; the rest is a matter of band limits.
        let d = f as f64 / rate;
        let near = |x: f64| {
            let t = (ph - x).rem_euclid(1.0);
            t < 2.0 * d + 0.001 || t > 1.0 - 2.0 * d - 0.001
        };
        let (want, tol) = match which {
            0 => ((ph * tau).sin(), 0.005),
            1 if !near(0.0) => (ph, 0.002),
            3 if !near(0.0) => (2.0 * ph - 1.0, 0.005),
            4 if !near(0.0) && !near(0.5) => (if ph < 0.5 { 1.0 } else { -1.0 }, 0.005),
            5 if !near(0.0) && !near(0.4) => (if ph < 0.4 { 1.0 } else { -1.0 }, 0.005),
            _ => continue,
        };
        if (y - want).abs() > tol {
            violate(class, format!("oscillator {which} at {f} Hz with phase {p}: sample {n} is {y}, not {want}"));
        }
    }
    // The builder gives the same.
    let b: Boxed = match (which, hz) {
        (0, false) => Box::new(sine().phase(p)),
        (0, true) => Box::new(sine_hz(f).phase(p)),
        (1, false) => Box::new(ramp().phase(p)),
        (1, true) => Box::new(ramp_hz(f).phase(p)),
        (2, false) => Box::new(saw().phase(p)),
        (2, true) => Box::new(saw_hz(f).phase(p)),
        (3, false) => Box::new(poly_saw().phase(p)),
        (3, true) => Box::new(poly_saw_hz(f).phase(p)),
        (4, false) => Box::new(poly_square().phase(p)),
        (4, true) => Box::new(poly_square_hz(f).phase(p)),
        (5, false) => Box::new(poly_pulse().phase(p)),
        (5, true) => Box::new(poly_pulse_hz(f, 0.4).phase(p)),
        (6, false) => Box::new(pulse().phase(p)),
        (6, true) => Box::new((dc((f, 0.4)) >> pulse()).phase(p)),
        (7, false) => Box::new(dsf_saw_r(0.5).phase(p)),
        (7, true) => Box::new((dc(f) >> dsf_saw_r(0.5)).phase(p)),
        (_, false) => Box::new(triangle().phase(p)),
        (_, true) => Box::new(triangle_hz(f).phase(p)),
    };
    let mut y = Host::new(b, garbage());
    y.unit.set_sample_rate(rate);
    let mut b = vec![vec![]];
    for c in schedule(200) {
        y.call_with(c, &value, &mut b, false);
    }
    for n in 0..200 {
        if !((a[0][n] - b[0][n]).abs() < 0.02) {
            violate(class, format!("oscillator {which} at {f} Hz with phase {p}: sample {n} is {} by setting and {} by the builder", a[0][n], b[0][n]));
        }
    }
    nontrivial();
}

fn one_out(x: Boxed) -> An<Unit<U0, U1>> {
    unit::<U0, U1>(x)
}

/// The sampling interval of envelopes: how often the function is called.
fn intervals() {
    let calls = Arc::new(AtomicU64::new(0));
    let c = calls.clone();
    let f = move |t: f32| {
        c.fetch_add(1, Ordering::Relaxed);
        t
    };
    let rate = pick(&RATES);
    let mut dt = 0.002;
    let draw = || (0.001 + 0.02 * frac()) as f32;
    let x: Boxed = match choose(3) {
        0 => Box::new(lfo(f)),
        1 => {
            dt = draw();
            Box::new(lfo(f).interval(dt))
        }
        _ => Box::new(dc(0.5) >> lfo_in(move |t, _: &Frame<f32, U1>| f(t))),
    };
    let inner = if x.get_id() == lfo(|t: f32| t).get_id() { vec![] } else { vec![At::R] };
    let mut h = Host::new(x, garbage());
    h.unit.set_sample_rate(rate);
    for part in 0..range(1, 4) {
        if part > 0 || chance(1, 2) {
            dt = draw();
            h.unit.set(at(&Setting::interval(dt), &inner));
            if chance(1, 2) {
                count("fault: reset");
                h.unit.reset();
            }
            // The segment under way goes on; it is no longer than the longest of them.
            play_none(&mut h, (0.03 * rate) as usize);
        }
        let before = calls.load(Ordering::Relaxed);
        let n = (dt as f64 * rate * 8.0) as usize;
        play_none(&mut h, n);
        let k = calls.load(Ordering::Relaxed) - before;
        // Intervals are jittered by up to a quarter either way.
        if k < 5 || k > 12 {
            violate(CLASS, format!("an envelope at intervals of {dt} s sampled its function {k} times in 8 intervals"));
        }
    }
    nontrivial();
}

fn play_none(h: &mut Host, n: usize) {
    let mut out = vec![vec![]; h.unit.outputs()];
    for c in schedule(n) {
        h.call_with(c, &|_, _| 0.0, &mut out, false);
    }
    for o in &out {
        log_f32(o);
    }
}

/// Controls that are read every few samples.
fn subsampling() {
    let period = range(1, 8);
    let kind = choose(3);
    mark(kind * 10 + period as u64);
    let seed = choose(1 << 20);
    let step = 1 + choose(40);
    let make = || -> Boxed {
        match kind {
            0 => Box::new(lowpass()),
            1 => Box::new(highpass()),
            _ => Box::new(bell()),
        }
    };
    let quiet = 16;
    // Audio, frequency, Q and gain; there is no sound until the controls have been read.
    let value = move |c: usize, n: u64| match c {
        0 if n < quiet => 0.0,
        0 => rnd(seed, n) * 2.0 - 1.0,
        1 => 300.0 + 3000.0 * rnd(seed + 1, n / step),
        2 => 0.6 + rnd(seed + 2, n / step),
        _ => 0.5 + rnd(seed + 3, n / step),
    };
    let mut h = Host::new(
        match (kind, chance(1, 2)) {
            (0, true) => Box::new(lowpass().subsample(period as u32)),
            (1, true) => Box::new(highpass().subsample(period as u32)),
            (2, true) => Box::new(bell().subsample(period as u32)),
            _ => {
                let mut x = make();
                x.set(Setting::subsample(period as u32));
                x
            }
        },
        garbage(),
    );
    if chance(1, 3) {
        let mut out = vec![vec![]];
        for c in schedule(range(1, 50)) {
            h.call_with(c, &value, &mut out, false);
        }
        count("fault: reset");
        h.unit.reset();
        h.n = 0;
    }
    let mut out = vec![vec![]];
    for c in schedule(400) {
        h.call_with(c, &value, &mut out, false);
    }
    log_f32(&out[0]);
    let mut best = (f32::INFINITY, 0);
    for phase in 0..period as u64 {
        // The controls as they were when last read.
        let held = |c: usize, n: u64| {
            if c == 0 || n < phase {
                return value(c, n);
            }
            value(c, n - (n - phase) % period as u64)
        };
        let mut y = Host::new(make(), Garbage(0.0));
        let mut b = vec![vec![]];
        for _ in 0..400 {
            y.call_with(Call::Tick, &held, &mut b, false);
        }
        let worst = (0..400).map(|i| (out[0][i] - b[0][i]).abs()).fold(0.0, |a, b| if b > a || b.is_nan() { b } else { a });
        if worst < best.0 {
            best = (worst, phase);
        }
    }
    if !(best.0 < 1.0e-3) {
        violate(CLASS, format!("filter {kind} that reads its controls every {period} samples differs by {} from all that do", best.0));
    }
    nontrivial();
}

fn c27() {
    match weighted(&[12, 2, 2, 3, 1, 1]) {
        0 => units(),
        1 => bank(),
        2 => methods(),
        3 => beginnings(),
        4 => intervals(),
        _ => subsampling(),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        title: "A setting makes a unit the one its parameters describe",
        run: c27,
        fresh: false,
        rule: "one unit with settable parameters, alone or up to three structures deep, set directly, through a listener or through a Net frontend at a random time: at the beginning, before a reset, on the way, on a clone, or with settings and addresses that do not apply; non-trivial: every run that compares sound",
        real: "every opcode with settings, Setting and its addresses, structures, Net, NetBackend, listeners (all real)",
        stub: "the host: division of time into calls, buffers with garbage around the signal, input signals, clock (the sample rate)",
        quick_s: 40.0,
        thorough_s: 600.0,
    }]
}
