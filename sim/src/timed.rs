//! Units that keep time, against small reference models (C26), and units that promise bounds and
//! response times (C25), under any division into calls, resets, clones and sample rates.

use crate::core::*;
use crate::runner::Prop;
use crate::units::*;
use fundsp::hacker32::*;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

type Boxed = Box<dyn AudioUnit>;
/// Input of a channel at a sample number.
pub type Input = Box<dyn Fn(u64) -> f32>;
/// One step of a model: input frame to output frame, each value with its tolerance.
type Step = Box<dyn FnMut(&[f32]) -> Vec<(f64, f64)>>;

/// A unit, what is played into it, and a model for each sample rate.
struct Timed {
    name: String,
    unit: Boxed,
    input: Vec<Input>,
    model: Box<dyn Fn(f64) -> Step>,
    /// Whether clones may be taken (not where the test watches through shared state).
    clones: bool,
    samples: usize,
}

pub fn rnd(seed: u64, n: u64) -> f32 {
    (mix(seed, n) >> 40) as f32 / (1u64 << 24) as f32
}

/// Audio of some kind.
pub fn audio(peak: f32) -> Input {
    let seed = choose(1 << 20);
    let period = 1 + choose(300);
    match choose(4) {
        0 => Box::new(move |n| (rnd(seed, n) * 2.0 - 1.0) * peak),
        1 => Box::new(move |n| if n % period == 0 { peak } else { 0.0 }),
        2 => Box::new(move |n| (rnd(seed, n / period) * 2.0 - 1.0) * peak),
        _ => Box::new(move |n| if (n / period) % 2 == 0 { (rnd(seed, n) * 2.0 - 1.0) * peak } else { 0.0 }),
    }
}

/// A control: constant, steps or a sweep between two values.
pub fn control(lo: f32, hi: f32) -> Input {
    let seed = choose(1 << 20);
    let period = 1 + choose(300);
    match choose(4) {
        0 => Box::new(move |_| lo + (hi - lo) * rnd(seed, 0)),
        1 => Box::new(move |n| lo + (hi - lo) * rnd(seed, n / period)),
        2 => Box::new(move |n| lo + (hi - lo) * rnd(seed, n)),
        _ => Box::new(move |n| lo + (hi - lo) * (0.5 + 0.5 * (n as f32 * 0.0001 * (1 + seed % 100) as f32).sin())),
    }
}

/// A line of past values, zero before the beginning.
struct Line(VecDeque<f64>, usize);
impl Line {
    fn new(len: usize) -> Line {
        Line(VecDeque::new(), len)
    }
    fn push(&mut self, x: f64) {
        self.0.push_front(x);
        self.0.truncate(self.1 + 1);
    }
    /// The value `i` samples ago; 0 is the latest.
    fn ago(&self, i: usize) -> f64 {
        self.0.get(i).copied().unwrap_or(0.0)
    }
}

fn cubic(a: f64, b: f64, c: f64, d: f64, t: f64) -> f64 {
    b + t / 2.0 * (c - a + t * (2.0 * a - 5.0 * b + 4.0 * c - d + t * (3.0 * (b - c) + d - a)))
}

fn rounded(t: f64, sr: f64) -> usize {
    (t * sr).round() as usize
}

/// A time whose number of samples is not close to a tie at any rate in use.
fn delay_time(max_samples: f64) -> f32 {
    let mut t = (max_samples * choose(4096) as f64 / 4096.0 / 44100.0) as f32;
    for _ in 0..20 {
        if RATES.iter().all(|r| ((t as f64 * r).fract() - 0.5).abs() > 0.01) {
            break;
        }
        t += 0.07 / 44100.0;
    }
    t
}

const RATES: [f64; 5] = [44100.0, 48000.0, 22050.0, 96000.0, 8000.0];

fn wave() -> Arc<Wave> {
    let n = 1 + choose(200);
    let seed = choose(1 << 20);
    let mut w = Wave::new(2, 44100.0);
    for i in 0..n {
        w.push((rnd(seed, i) - 0.5, rnd(seed + 1, i) - 0.5));
    }
    Arc::new(w)
}

/// Where a wave player is after `n` samples.
fn play_at(w: &Wave, ch: usize, start: usize, end: usize, lp: Option<usize>, n: u64) -> f64 {
    let n = n as usize;
    if start + n < end {
        return w.at(ch, start + n) as f64;
    }
    match lp {
        Some(p) if p < end && start < end => w.at(ch, p + (start + n - end) % (end - p)) as f64,
        _ => 0.0,
    }
}

fn gain() -> f32 {
    0.9 - 1.8 * choose(256) as f32 / 256.0
}

/// One output with one tolerance.
fn one(f: impl FnMut(&[f32]) -> (f64, f64) + 'static) -> Step {
    let mut f = f;
    Box::new(move |x| vec![f(x)])
}

fn taps(n: usize, linear: bool) -> Timed {
    let lo = if chance(1, 3) { delay_time(60.0) } else { 0.0 };
    let hi = lo + if chance(1, 8) { 0.0 } else { delay_time(pick(&[60.0, 5.0, 300.0, 2000.0])) };
    let unit: Boxed = match (n, linear) {
        (1, false) => Box::new(tap(lo, hi)),
        (1, true) => Box::new(tap_linear(lo, hi)),
        (2, false) => Box::new(multitap::<U2>(lo, hi)),
        (2, true) => Box::new(multitap_linear::<U2>(lo, hi)),
        (_, false) => Box::new(multitap::<U3>(lo, hi)),
        (_, true) => Box::new(multitap_linear::<U3>(lo, hi)),
    };
    let mut input = vec![audio(1.0)];
    for _ in 0..n {
        // Sometimes outside of the range.
        let slack = if chance(1, 3) { 0.3 * (hi - lo) + 0.0001 } else { 0.0 };
        input.push(control(lo - slack, hi + slack));
    }
    Timed {
        name: format!("{} taps {lo}..{hi} {}", n, if linear { "linear" } else { "cubic" }),
        unit,
        input,
        clones: true,
        samples: if hi > 0.02 { 4000 } else { 1000 },
        model: Box::new(move |sr| {
            let mut line = Line::new((hi as f64 * sr) as usize + 8);
            one(move |x| {
                line.push(x[0] as f64);
                let mut y = 0.0;
                let mut tol = 1.0e-4;
                for c in 1..=n {
                    let least = if linear { 0.0 } else { 1.00001 / sr };
                    let d = (x[c] as f64).clamp((lo as f64).max(least), (hi as f64).max(least)) * sr;
                    let f = d.floor() as usize;
                    let t = d - f as f64;
                    y += if linear {
                        let (a, b) = (line.ago(f), line.ago(f + 1));
                        a + (b - a) * t
                    } else {
                        let before = if f == 0 { 0.0 } else { line.ago(f - 1) };
                        cubic(before, line.ago(f), line.ago(f + 1), line.ago(f + 2), t)
                    };
                    tol += 1.0e-4 + d * 2.0e-6;
                }
                (y, tol)
            })
        }),
    }
}

fn draw() -> Timed {
    let t = |name: String, unit: Boxed, input: Vec<Input>, samples: usize, model: Box<dyn Fn(f64) -> Step>| Timed {
        name,
        unit,
        input,
        model,
        clones: true,
        samples,
    };
    match choose(20) {
        0 => {
            let d = delay_time(pick(&[300.0, 3.0, 70.0, 4000.0]));
            t(
                format!("delay {d}"),
                Box::new(delay(d)),
                vec![audio(1.0)],
                pick(&[800, 200, 9000]),
                Box::new(move |sr| {
                    let n = rounded(d as f64, sr);
                    let mut line = Line::new(n);
                    one(move |x| {
                        line.push(x[0] as f64);
                        (line.ago(n), 0.0)
                    })
                }),
            )
        }
        1 => t(
            "multitick".into(),
            if chance(1, 2) { Box::new(multitick::<U2>()) } else { Box::new(tick() | tick()) },
            vec![audio(1.0), audio(1.0)],
            300,
            Box::new(|_| {
                let mut last = vec![0.0, 0.0];
                Box::new(move |x| {
                    let y = last.iter().map(|v| (*v, 0.0)).collect();
                    last = x.iter().map(|v| *v as f64).collect();
                    y
                })
            }),
        ),
        2 => taps(1, false),
        3 => taps(1, true),
        4 => taps(range(2, 3), false),
        5 => taps(range(2, 3), true),
        6 => {
            let w: Vec<f32> = (0..4).map(|_| gain()).collect();
            t(
                format!("fir {w:?}"),
                Box::new(fir((w[0], w[1], w[2], w[3]))),
                vec![audio(1.0)],
                300,
                Box::new(move |_| {
                    let w = w.clone();
                    let mut line = Line::new(4);
                    one(move |x| {
                        line.push(x[0] as f64);
                        ((0..4).map(|i| w[i] as f64 * line.ago(3 - i)).sum(), 1.0e-5)
                    })
                }),
            )
        }
        7 | 8 => {
            let w = wave();
            let len = w.length();
            let ch = choose(2) as usize;
            let whole = chance(1, 3);
            let start = if whole { 0 } else { choose(len as u64) as usize };
            let end = if whole { len } else { start + choose((len - start) as u64 + 1) as usize };
            let lp = if chance(1, 2) && end > 0 { Some(choose(end as u64) as usize) } else { None };
            t(
                format!("wave player {start}..{end} of {len}, loop {lp:?}"),
                if whole { Box::new(wavech(&w, ch, lp)) } else { Box::new(wavech_at(&w, ch, start, end, lp)) },
                vec![],
                700,
                Box::new(move |_| {
                    let w = w.clone();
                    let mut n = 0;
                    one(move |_| {
                        n += 1;
                        (play_at(&w, ch, start, end, lp, n - 1), 0.0)
                    })
                }),
            )
        }
        9 => {
            let w = wave();
            let len = w.length();
            let lp = choose(len as u64) as usize;
            let top = pick(&[2.0, 1.0, 8.0, 100.0]);
            t(
                format!("resample to {top}"),
                Box::new(resample(wavech(&w, 0, Some(lp)))),
                vec![control(0.0, top)],
                700,
                Box::new(move |_| {
                    let w = w.clone();
                    let mut p = 1.0;
                    one(move |x| {
                        p += (x[0] as f64).max(0.0);
                        let i = p.floor() as u64;
                        let at = |k: u64| play_at(&w, 0, 0, len, Some(lp), k);
                        (cubic(at(i - 1), at(i), at(i + 1), at(i + 2), p - i as f64), 1.0e-4)
                    })
                }),
            )
        }
        10 => {
            let d = delay_time(200.0);
            let k = gain();
            let extra = chance(1, 2);
            t(
                format!("feedback {d} gain {k} extra {extra}"),
                if extra { Box::new(feedback2(delay(d), mul(k))) } else { Box::new(feedback(delay(d) * k)) },
                vec![audio(1.0)],
                pick(&[700, 3000]),
                Box::new(move |sr| {
                    let n = rounded(d as f64, sr);
                    let k = k as f64;
                    let (mut line, mut v) = (Line::new(n), 0.0);
                    one(move |x| {
                        line.push(x[0] as f64 + v);
                        let y = line.ago(n);
                        v = k * y;
                        (if extra { y } else { v }, 1.0e-4)
                    })
                }),
            )
        }
        11 => {
            // A feedback unit with its own delay around another delay, two channels.
            let d = delay_time(pick(&[200.0, 70.0, 3.0, 1000.0]));
            let e = delay_time(100.0);
            let k = [gain(), gain()];
            t(
                format!("feedback unit {d} around {e} gain {k:?}"),
                Box::new(FeedbackUnit::new(d as f64, Box::new((delay(e) * k[0]) | (pass() * k[1])))),
                vec![audio(1.0), audio(1.0)],
                pick(&[700, 3000]),
                Box::new(move |sr| {
                    let n = std::cmp::max(1, rounded(d as f64, sr));
                    let m = rounded(e as f64, sr);
                    let (mut in0, mut out0, mut out1) = (Line::new(m), Line::new(n), Line::new(n));
                    Box::new(move |x| {
                        in0.push(x[0] as f64 + out0.ago(n - 1));
                        out0.push(k[0] as f64 * in0.ago(m));
                        let y1 = k[1] as f64 * (x[1] as f64 + out1.ago(n - 1));
                        out1.push(y1);
                        vec![(out0.ago(0), 1.0e-4), (y1, 1.0e-4)]
                    })
                }),
            )
        }
        12 => {
            let d: Vec<f32> = (0..4).map(|_| delay_time(100.0)).collect();
            let k = gain();
            let e = d.clone();
            t(
                format!("fdn {d:?} gain {k}"),
                Box::new(fdn::<U4, _>(stacki::<U4, _, _>(move |i| delay(e[i as usize]) * k))),
                (0..4).map(|_| audio(1.0)).collect(),
                pick(&[500, 2000]),
                Box::new(move |sr| {
                    let n: Vec<usize> = d.iter().map(|d| rounded(*d as f64, sr)).collect();
                    let mut line: Vec<Line> = n.iter().map(|n| Line::new(*n)).collect();
                    let mut v = [0.0; 4];
                    Box::new(move |x| {
                        let mut y = [0.0; 4];
                        for c in 0..4 {
                            line[c].push(x[c] as f64 + v[c]);
                            y[c] = line[c].ago(n[c]) * k as f64;
                        }
                        let (a, b, c, d) = (y[0] + y[1], y[0] - y[1], y[2] + y[3], y[2] - y[3]);
                        v = [(a + c) / 2.0, (b + d) / 2.0, (a - c) / 2.0, (b - d) / 2.0];
                        y.iter().map(|y| (*y, 1.0e-4)).collect()
                    })
                }),
            )
        }
        13 => {
            let d = delay_time(100.0);
            let k = gain();
            let live = chance(1, 2);
            t(
                format!("nested allpass {k} around delay {d}"),
                if live { Box::new(allnest(delay(d))) } else { Box::new(allnest_c(k, delay(d))) },
                if live { vec![audio(1.0), control(-0.8, 0.8)] } else { vec![audio(1.0)] },
                700,
                Box::new(move |sr| {
                    let n = rounded(d as f64, sr);
                    let (mut line, mut z) = (Line::new(n), 0.0);
                    one(move |x| {
                        let k = if live { x[1] } else { k } as f64;
                        let v = x[0] as f64 - k * z;
                        let y = k * v + z;
                        line.push(v);
                        z = line.ago(n);
                        (y, 1.0e-3)
                    })
                }),
            )
        }
        14 => {
            // Poles within the unit circle.
            let r = 0.95 * choose(256) as f64 / 256.0;
            let w = 3.0 * choose(256) as f64 / 256.0;
            let (a1, a2) = ((-2.0 * r * w.cos()) as f32, (r * r) as f32);
            let b = [gain(), gain(), gain()];
            t(
                format!("biquad {a1} {a2} {b:?}"),
                Box::new(biquad(a1, a2, b[0], b[1], b[2])),
                vec![audio(1.0)],
                700,
                Box::new(move |_| {
                    let (mut x1, mut x2, mut y1, mut y2) = (0.0, 0.0, 0.0, 0.0);
                    // Rounding errors grow with what has been in the filter.
                    let mut peak = 0.0f64;
                    one(move |x| {
                        let x0 = x[0] as f64;
                        let y0 = b[0] as f64 * x0 + b[1] as f64 * x1 + b[2] as f64 * x2 - a1 as f64 * y1 - a2 as f64 * y2;
                        (x2, x1, y2, y1) = (x1, x0, y1, y0);
                        peak = peak.max(y0.abs());
                        (y0, 1.0e-3 + 3.0e-4 * peak)
                    })
                }),
            )
        }
        15 => {
            let p = choose(256) as f32 / 256.0;
            let double = chance(1, 2);
            let saw = chance(1, 2);
            t(
                format!("{} phase {p} double {double}", if saw { "ramp" } else { "sine" }),
                match (double, saw) {
                    (true, false) => Box::new(fundsp::hacker::sine().phase(p)),
                    (false, false) => Box::new(sine().phase(p)),
                    (true, true) => Box::new(fundsp::hacker::ramp().phase(p)),
                    (false, true) => Box::new(ramp().phase(p)),
                },
                vec![control(0.0, 3000.0)],
                pick(&[500, 3000]),
                Box::new(move |sr| {
                    let (mut phase, mut n) = (p as f64, 0.0);
                    one(move |x| {
                        let tol = if double { 1.0e-4 } else { 1.0e-4 + n * 1.0e-5 };
                        let u = phase - phase.floor();
                        n += 1.0;
                        phase += x[0] as f64 / sr;
                        if saw && (u < tol || u > 1.0 - tol) {
                            // At the jump.
                            return (0.5, 0.5 + tol);
                        }
                        (if saw { u } else { (u * std::f64::consts::TAU).sin() }, tol * 3.0)
                    })
                }),
            )
        }
        16 => {
            let (a, b) = (gain(), gain() * 20.0);
            let double = chance(1, 2);
            t(
                format!("envelope {a} + {b} t double {double}"),
                if double {
                    Box::new(fundsp::hacker::envelope(move |t: f64| (a as f64 + b as f64 * t, t)))
                } else {
                    Box::new(envelope(move |t: f32| (a + b * t, t)))
                },
                vec![],
                pick(&[500, 3000]),
                Box::new(move |sr| {
                    let mut n = 0.0;
                    Box::new(move |_| {
                        let t = n / sr;
                        n += 1.0;
                        let tol = 1.0e-4 + 2.0e-3 * t;
                        vec![(a as f64 + b as f64 * t, tol * (1.0 + b.abs() as f64)), (t, tol)]
                    })
                }),
            )
        }
        17 => {
            let d = 0.0005 + 0.05 * choose(1024) as f32 / 1024.0;
            t(
                format!("declick {d}"),
                Box::new(declick_s(d)),
                vec![audio(1.0)],
                pick(&[700, 3000]),
                Box::new(move |sr| {
                    let mut n = 0.0;
                    one(move |x| {
                        let u = (n / sr / d as f64).min(1.0);
                        n += 1.0;
                        (x[0] as f64 * u * u * u * (u * (u * 6.0 - 15.0) + 10.0), 3.0e-3)
                    })
                }),
            )
        }
        18 => {
            let len = 4usize << choose(6);
            let seen: Arc<Mutex<Vec<(f64, f64)>>> = Arc::new(Mutex::new(vec![]));
            let s = seen.clone();
            let mut t = t(
                format!("resynthesis with {len}"),
                Box::new(resynth::<U2, U2, _>(len, move |fft| {
                    let _q = Quiet::new();
                    s.lock().unwrap().push((fft.time_at(0), fft.delta_time()));
                    fft.forward(0, 1);
                    for i in 0..fft.bins() {
                        fft.set(0, i, fft.at(1, i) * 0.5);
                    }
                })),
                vec![audio(1.0), audio(1.0)],
                pick(&[700, 2000]),
                Box::new(move |sr| {
                    let seen = seen.clone();
                    seen.lock().unwrap().clear();
                    let (mut a, mut b, mut n, mut checked) = (Line::new(len), Line::new(len), 0, 0);
                    Box::new(move |x| {
                        a.push(x[0] as f64);
                        b.push(x[1] as f64);
                        n += 1;
                        let seen = seen.lock().unwrap();
                        for (k, (t, d)) in seen.iter().enumerate().skip(checked) {
                            let hop = len as f64 / 4.0 / sr;
                            // The windows before the first whole one are left out.
                            if (t - k as f64 * hop).abs() > 1.0e-5 * (1.0 + t) || (d - hop).abs() > 1.0e-6 * hop + 1.0e-9 {
                                violate("C26/time", format!("resynthesis window {k} of length {len} at {sr} Hz is at {t} s with {d} s between windows"));
                            }
                        }
                        checked = seen.len();
                        let tol = if n > 2 * len { 1.0e-4 } else { 10.0 };
                        vec![(b.ago(len) * 0.5, tol), (a.ago(len), tol)]
                    })
                }),
            );
            t.clones = false;
            t
        }
        _ => {
            let peak = chance(1, 2);
            let s = 0.0005 + 0.05 * choose(256) as f64 / 256.0;
            t(
                format!("meter {} {s}", if peak { "peak" } else { "rms" }),
                Box::new(meter(if peak { Meter::Peak(s) } else { Meter::Rms(s) })),
                vec![audio(1.0)],
                pick(&[700, 3000]),
                Box::new(move |sr| {
                    let k = 0.5f64.powf(1.0 / (s * sr));
                    let mut v = 0.0f64;
                    one(move |x| {
                        let x = x[0] as f64;
                        v = if peak { (v * k).max(x.abs()) } else { v * k + (1.0 - k) * x * x };
                        (if peak { v } else { v.sqrt() }, 2.0e-3)
                    })
                }),
            )
        }
    }
}

/// Play `samples` samples, disturbed between calls by what must not matter.
fn play(h: &mut Host, rate: f64, samples: usize, value: &dyn Fn(usize, u64) -> f32, clones: bool) -> Vec<Vec<f32>> {
    let (ins, outs) = (h.unit.inputs(), h.unit.outputs());
    let mut out = vec![vec![]; outs];
    let mut spares: Vec<Boxed> = vec![];
    for call in schedule(samples) {
        match choose(40) {
            1 => {
                trace!("same sample rate");
                count("fault: same sample rate");
                h.unit.set_sample_rate(rate);
            }
            2 => {
                count("fault: allocate");
                h.unit.allocate();
            }
            3 => {
                count("fault: empty call");
                h.call_with(Call::Process(0), value, &mut out, false);
            }
            4 if clones && spares.len() < 3 => {
                trace!("clone");
                count("fault: clone");
                let c = h.unit.clone();
                spares.push(std::mem::replace(&mut h.unit, c));
            }
            _ => {}
        }
        if !spares.is_empty() && chance(1, 4) {
            // The original goes on with something else.
            let k = choose(spares.len() as u64) as usize;
            let x = vec![0.37; ins];
            let mut y = vec![0.0; outs];
            spares[k].tick(&x, &mut y);
            if chance(1, 4) {
                spares[k].reset();
            }
        }
        h.call_with(call, value, &mut out, false);
    }
    for c in &out {
        log_f32(c);
    }
    out
}

/// Begin again, perhaps at another sample rate.
fn restart(h: &mut Host, rate: &mut f64, rates: &[f64]) {
    if chance(1, 2) {
        *rate = pick(rates);
        trace!("sample rate {rate}");
        count("fault: sample rate change");
        h.unit.set_sample_rate(*rate);
    }
    trace!("reset");
    count("fault: reset");
    h.unit.reset();
}

/// A unit at one of the rates.
fn start(unit: Boxed, rates: &[f64]) -> (Host, f64) {
    let mut h = Host::new(unit, garbage());
    let rate = pick(rates);
    // The default rate is set already, or is set again.
    if rate != 44100.0 || chance(1, 2) {
        h.unit.set_sample_rate(rate);
    }
    trace!("sample rate {rate}");
    (h, rate)
}

/// The update function of a system is told the time, and is called as often as it asked for.
fn updates() {
    let class = "C26/time";
    let log: Arc<Mutex<Vec<(f32, f32)>>> = Arc::new(Mutex::new(vec![]));
    let l = log.clone();
    let every = pick(&[0.001, 0.0, 0.00001, 0.003, 0.02, 0.0101]);
    trace!("updates every {every} s");
    let unit: Boxed = Box::new(update(pass(), every, move |t, dt, _x: &mut Pass| l.lock().unwrap().push((t, dt))));
    let (mut h, mut rate) = start(unit, &RATES);
    let value = |_: usize, n: u64| n as f32;
    for part in 0..range(1, 3) {
        if part > 0 {
            restart(&mut h, &mut rate, &RATES);
        }
        let (mut t, mut since) = (0.0f64, 0.0f64);
        let mut first = true;
        for call in schedule(pick(&[300, 1500])) {
            let empty = call.len() == 0;
            if empty || chance(1, 60) {
                count("fault: empty call");
                h.call_with(Call::Process(0), &value, &mut vec![vec![]], false);
                let _q = Quiet::new();
                if !log.lock().unwrap().is_empty() && since < every as f64 - 2.0e-5 {
                    violate(class, format!("an update was made in an empty call {since} s after the last"));
                }
                if !log.lock().unwrap().is_empty() {
                    since = 0.0;
                }
                log.lock().unwrap().clear();
                if empty {
                    continue;
                }
            }
            if chance(1, 80) {
                rate = pick(&RATES);
                count("fault: sample rate change");
                h.unit.set_sample_rate(rate);
            }
            let n = h.n;
            let mut out = vec![vec![]];
            h.call_with(call, &value, &mut out, false);
            let _q = Quiet::new();
            for (i, y) in out[0].iter().enumerate() {
                if *y != value(0, n + i as u64) {
                    violate(class, format!("the node in the system got {y}"));
                }
            }
            let calls = std::mem::take(&mut *log.lock().unwrap());
            let tol = 1.0e-5 + 1.0e-4 * t;
            if calls.len() > 1 {
                violate(class, format!("{} updates in one call", calls.len()));
            }
            if calls.is_empty() && (first || since > every as f64 + tol) {
                violate(class, format!("no update at {t} s, {since} s after the last, of an interval of {every} s"));
            }
            if let Some((ft, fdt)) = calls.first() {
                if !first && since < every as f64 - tol {
                    violate(class, format!("an update at {t} s, {since} s after the last, of an interval of {every} s"));
                }
                if (*ft as f64 - t).abs() > tol || (*fdt as f64 - since).abs() > tol {
                    violate(class, format!("an update at {t} s, {since} s after the last, was told {ft} and {fdt}"));
                }
                since = 0.0;
            }
            event(calls.len() as u64);
            first = false;
            t += call.len() as f64 / rate;
            since += call.len() as f64 / rate;
        }
    }
    nontrivial();
}

fn c26() {
    let class = "C26/time";
    if chance(1, 20) {
        return updates();
    }
    let t = draw();
    for b in t.name.bytes().take(6) {
        mark(b as u64);
    }
    trace!("unit {}", t.name);
    let Timed { name, unit, input, model, clones, samples } = t;
    let (mut h, mut rate) = start(unit, &RATES);
    let value = |c: usize, n: u64| input[c](n);
    let parts = range(1, 4);
    for part in 0..parts {
        if part > 0 {
            restart(&mut h, &mut rate, &RATES);
        }
        let mut step = model(rate);
        let first = h.n;
        let out = play(&mut h, rate, std::cmp::max(1, samples / parts), &value, clones);
        let _q = Quiet::new();
        for n in first..h.n {
            let frame: Vec<f32> = (0..input.len()).map(|c| input[c](n)).collect();
            let i = (n - first) as usize;
            for (c, (y, tol)) in step(&frame).iter().enumerate() {
                let d = (out[c][i] as f64 - y).abs();
                // Not a number is not within the tolerance either.
                if !(d <= *tol) {
                    violate(class, format!("{name} at {rate} Hz: channel {c} is {} {i} samples after the start, expected {y} within {tol}", out[c][i]));
                }
            }
        }
    }
    nontrivial();
}

// ---------------------------------------------------------------------------------------------
// Bounds and response times.

/// Loud and quiet passages, peaks anywhere.
fn loud(peak: f32) -> Input {
    let seed = choose(1 << 20);
    let period = 1 + choose(400);
    let exponent = pick(&[1.0, 4.0, 12.0]);
    match choose(5) {
        0 => audio(peak),
        // Each passage at its own level, from almost nothing to the peak.
        1 => Box::new(move |n| (rnd(seed, n) * 2.0 - 1.0) * peak * rnd(seed + 1, n / period).powf(exponent)),
        // Single peaks over a quiet floor, wherever they fall.
        2 => Box::new(move |n| if rnd(seed, n) < 1.0 / period as f32 { peak * rnd(seed + 1, n) } else { 0.3 * (rnd(seed + 2, n) - 0.5) }),
        // A peak at the very beginning.
        3 => Box::new(move |n| if n == period % 4 { -peak } else { 0.9 * rnd(seed, n) }),
        // Growing.
        _ => Box::new(move |n| (rnd(seed, n) * 2.0 - 1.0) * (peak * n as f32 / 3000.0).min(peak)),
    }
}

fn limiters() {
    let class = "C25/limiter";
    let stereo = chance(1, 2);
    // In samples at the lowest rate.
    let attack = (10 + choose(pick(&[60, 20, 500]))) as f32 / 22050.0;
    let release = (1 + choose(200)) as f32 / 22050.0;
    let rates = [44100.0, 48000.0, 22050.0, 96000.0];
    let unit: Boxed = if stereo { Box::new(limiter_stereo(attack, release)) } else { Box::new(limiter(attack, release)) };
    let ins = unit.inputs();
    trace!("limiter attack {attack} release {release}");
    let (mut h, mut rate) = start(unit, &rates);
    let parts = range(1, 3);
    for part in 0..parts {
        if part > 0 {
            restart(&mut h, &mut rate, &rates);
        }
        let first = h.n;
        let peak = pick(&[3.0, 0.9, 1.2, 100.0, 1.0e4]);
        let inputs: Vec<Input> = (0..ins).map(|_| loud(peak)).collect();
        let n = pick(&[1000, 300, 4000]);
        // Finally it is quiet for long.
        let coda = if chance(1, 4) { (release as f64 * rate * 14.0) as usize + (attack as f64 * rate) as usize } else { 0 };
        let value = |c: usize, k: u64| {
            let k = k - first;
            let x = inputs[c](k);
            if k >= n { x.clamp(-0.5, 0.5) } else { x }
        };
        let mut out = play(&mut h, rate, n as usize, &value, true);
        if coda > 0 {
            let tail = play(&mut h, rate, coda + 100, &value, true);
            for c in 0..ins {
                out[c].extend(&tail[c]);
            }
        }
        let _q = Quiet::new();
        let d = std::cmp::max(1, rounded(attack as f64, rate));
        match h.unit.latency() {
            Some(l) if (l - d as f64).abs() < 1.5 => {}
            l => violate(class, format!("limiter with attack {attack} at {rate} Hz has latency {l:?}, not {d}")),
        }
        let mut highest = 1.0f64;
        for i in 0..out[0].len() {
            let mut gains = vec![];
            for c in 0..ins {
                highest = highest.max(1.1 * value(c, first + i as u64).abs() as f64);
                let y = out[c][i] as f64;
                if !(y.abs() <= 1.0) {
                    violate(class, format!("limiter lets {y} through, {i} samples after the start"));
                }
                let x = if i < d { 0.0 } else { value(c, first + (i - d) as u64) as f64 };
                if x == 0.0 {
                    if y != 0.0 {
                        violate(class, format!("limiter outputs {y} for silence {d} samples ago, {i} samples after the start"));
                    }
                    continue;
                }
                if x.abs() > 1.0e-6 {
                    gains.push(y / x);
                }
            }
            for g in &gains {
                if *g > 1.0001 || *g < 0.999 / highest {
                    violate(class, format!("limiter has gain {g} with no input above {} so far, {i} samples after the start", highest / 1.1));
                }
                if (*g - gains[0]).abs() > 1.0e-4 * gains[0] {
                    violate(class, format!("limiter has gains {gains:?} on its channels, {i} samples after the start"));
                }
                if coda > 0 && i >= n as usize + coda && *g < 0.99 {
                    violate(class, format!("limiter has gain {g} long after it has become quiet"));
                }
            }
        }
    }
    nontrivial();
}

/// Smoothing: response times and no overshoot.
fn followers() {
    let class = "C25/follow";
    let double = chance(1, 2);
    let symmetric = chance(1, 2);
    let time = || (20 + choose(300)) as f32 / 22050.0;
    let mut times = (time(), time());
    if symmetric {
        times.1 = times.0;
    }
    let unit: Boxed = match (symmetric, double) {
        (true, false) => Box::new(follow(times.0)),
        (true, true) => Box::new(fundsp::hacker::follow(times.0)),
        (false, false) => Box::new(afollow(times.0, times.1)),
        (false, true) => Box::new(fundsp::hacker::afollow(times.0, times.1)),
    };
    trace!("follow {times:?} double {double}");
    let rates = [44100.0, 48000.0, 22050.0];
    let (mut h, mut rate) = start(unit, &rates);
    for part in 0..range(1, 3) {
        if part > 0 {
            restart(&mut h, &mut rate, &rates);
        }
        let mut level = gain() as f64 * 2.0;
        let mut last = level;
        for step in 0..range(2, 5) {
            // The first sample is taken over at once, and so there is nothing to follow.
            let down = level < last;
            let samples = if down { times.1 } else { times.0 } as f64 * rate;
            let n = (samples * 14.0) as usize + 10;
            let out = play(&mut h, rate, n, &|_, _| level as f32, true);
            let size = (level - last).abs();
            let eps = 1.0e-3 * size + 1.0e-4;
            let (lo, hi) = (level.min(last) - eps, level.max(last) + eps);
            let _q = Quiet::new();
            let middle = (level + last) / 2.0;
            let mut crossed = None;
            for (i, y) in out[0].iter().enumerate() {
                let y = *y as f64;
                if !(y >= lo && y <= hi) {
                    violate(class, format!("follower is at {y} on its way from {last} to {level}"));
                }
                if crossed.is_none() && (y > middle) == (level > middle) && y != middle {
                    crossed = Some((i + 1) as f64);
                }
            }
            if step == 0 {
                if (out[0][0] as f64 - level).abs() > 1.0e-6 {
                    violate(class, format!("follower starts at {} with input {level}", out[0][0]));
                }
            } else if size > 0.05 {
                let t = crossed.unwrap_or(f64::INFINITY);
                if (t - samples).abs() > 3.0 + 0.03 * samples {
                    violate(class, format!("follower took {t} samples halfway from {last} to {level}, expected {samples}"));
                }
            }
            let y = *out[0].last().unwrap() as f64;
            if (y - level).abs() > 2.0e-3 * size + 1.0e-3 {
                violate(class, format!("follower is at {y} long after it was given {level}, coming from {last}"));
            }
            if chance(1, 4) {
                times = (time(), time());
                if symmetric {
                    times.1 = times.0;
                    h.unit.set(Setting::time(times.0));
                } else {
                    h.unit.set(Setting::attack_release(times.0, times.1));
                }
                count("setting: response time");
                trace!("times {times:?}");
            }
            last = level;
            level = gain() as f64 * 2.0;
        }
    }
    nontrivial();
}

/// The envelope with a gate that opens and closes at arbitrary times.
fn envelopes() {
    let class = "C25/adsr";
    let time = || 0.002 + 0.03 * choose(256) as f32 / 256.0;
    let (attack, decay, release) = (time(), time(), time());
    let sustain = choose(257) as f32 / 256.0;
    trace!("adsr {attack} {decay} {sustain} {release}");
    let rates = [44100.0, 48000.0, 22050.0, 8000.0];
    let (mut h, mut rate) = start(Box::new(adsr_live(attack, decay, sustain, release)), &rates);
    let (a, d, s, r) = (attack as f64, decay as f64, sustain as f64, release as f64);
    // The gate is noticed at the start of a segment and acts from its end; a segment is at most
    // 2.5 milliseconds long.
    const SLACK: f64 = 0.0055;
    for part in 0..range(1, 3) {
        if part > 0 {
            restart(&mut h, &mut rate, &rates);
        }
        let mut opened = false;
        let mut settled = false;
        let mut open = chance(1, 2);
        for _ in 0..range(1, 5) {
            let t = 0.004 + if chance(1, 2) { 0.1 } else { 0.03 } * choose(256) as f64 / 256.0;
            let n = (t * rate) as usize + 1;
            let level = if open { pick(&[1.0, 0.1]) } else { pick(&[0.0, -1.0]) };
            trace!("gate {level} for {t}");
            let out = play(&mut h, rate, n, &|_, _| level, true);
            let _q = Quiet::new();
            opened |= open;
            for (i, y) in out[0].iter().enumerate() {
                let y = *y as f64;
                let t = i as f64 / rate;
                let fail = |what: &str| violate(class, format!("envelope is at {y}, {t} s after the gate has {}: {what}", if open { "opened" } else { "closed" }));
                if !(y >= -1.0e-3 && y <= 1.001) {
                    fail("outside of 0...1");
                }
                if !opened && y.abs() > 1.0e-6 {
                    fail("before the gate was ever open");
                }
                if open {
                    if t >= SLACK && t <= a - 0.003 && (y > t / a + 0.01 || y < (t - SLACK) / a - 0.01) {
                        fail("not on its way up");
                    }
                    if t >= a + d + 2.0 * SLACK && (y - s).abs() > 0.005 {
                        fail("not at the sustain level");
                    }
                } else {
                    if t >= r + 2.0 * SLACK && y.abs() > 0.002 {
                        fail("not silent");
                    }
                    if settled && t <= r && (y < s * (1.0 - t / r) - 0.01 || y > s * (1.0 - (t - SLACK * 1.5) / r).min(1.0) + 0.01) {
                        fail("not on its way down from the sustain level");
                    }
                }
            }
            settled = open && t >= a + d + 2.0 * SLACK;
            open = !open;
        }
    }
    nontrivial();
}

/// Sample and hold.
fn holds() {
    let class = "C25/hold";
    let v = if chance(1, 3) { 0.0 } else { choose(257) as f32 / 256.0 };
    let seed = choose(1 << 20);
    let f = control(pick(&[50.0, 1000.0]), pick(&[2000.0, 10000.0, 60000.0]));
    let fixed = chance(1, 2);
    trace!("hold variability {v}");
    let unit: Boxed = if fixed { Box::new(hold_hz(f(0), v)) } else { Box::new(hold(v)) };
    let (mut h, mut rate) = start(unit, &RATES);
    for part in 0..range(1, 3) {
        if part > 0 {
            restart(&mut h, &mut rate, &RATES);
        }
        let first = h.n;
        // No value comes twice.
        let x = |n: u64| (n.wrapping_mul(2654435761).wrapping_add(seed) & ((1 << 22) - 1)) as f32 / (1 << 21) as f32 - 1.0;
        let f = |n: u64| if fixed { f(0) } else { f(n) };
        let out = play(&mut h, rate, pick(&[500, 2000]), &|c, n| if c == 0 { x(n) } else { f(n) }, true);
        let _q = Quiet::new();
        let mut held = (0, x(first));
        for (i, y) in out[0].iter().enumerate() {
            let n = first + i as u64;
            if i == 0 {
                if *y != x(n) {
                    violate(class, format!("hold starts with {y}, not the input {}", x(n)));
                }
                continue;
            }
            let k = (i - held.0) as f64;
            let period = rate / f(first + held.0 as u64) as f64;
            if *y == x(n) && x(n) != held.1 {
                if k < (1.0 - v as f64) * period - 0.001 {
                    violate(class, format!("hold took a new sample after {k} samples; the period is {period} with variability {v}"));
                }
                held = (i, *y);
            } else if *y == held.1 {
                if k >= (1.0 + v as f64) * period + 1.001 && x(n) != held.1 {
                    violate(class, format!("hold took no new sample for {k} samples; the period is {period} with variability {v}"));
                }
            } else {
                violate(class, format!("hold is at {y}, neither what it held, {}, nor its input {}", held.1, x(n)));
            }
        }
    }
    nontrivial();
}

fn c25() {
    match choose(5) {
        0 | 1 => limiters(),
        2 => followers(),
        3 => envelopes(),
        _ => holds(),
    }
}

pub fn props() -> Vec<Prop> {
    const STUB: &str = "the host: division of time into calls, buffers with garbage around the signal, input signals, clock (the sample rate)";
    let p = |id, title, run, rule, real| Prop { id, title, run, fresh: false, rule, real, stub: STUB, quick_s: 40.0, thorough_s: 600.0 };
    vec![p(
        "C25",
        "Dynamics keep their bounds and times",
        c25,
        "one limiter, follower, envelope or sample-and-hold with random parameters, loud and quiet passages, steps or gates at random times, one to three parts separated by resets and rate changes, with clones, allocations, empty calls and repeated rate settings between calls; non-trivial: every run",
        "limiter, limiter_stereo, follow, afollow, adsr_live, hold, hold_hz (all real)",
    ), p(
        "C26",
        "Units keep exact time",
        c26,
        "one random unit with random parameters and input, one to four parts separated by resets and rate changes, with clones, allocations, empty calls and repeated rate settings between calls; non-trivial: every run",
        "delay, tick, tap, fir, wave player, resampler, feedback, fdn, allnest, biquad, oscillators, envelope, declick, resynth, meter (all real)",
    )]
}
