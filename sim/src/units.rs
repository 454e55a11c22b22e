//! Every unit under every calling history: the division of time into calls (C17), reset (C18),
//! clone (C19) and sample rate (C20) at arbitrary points, and allocation (part of C13).

use crate::cat::*;
use crate::core::*;
use crate::runner::Prop;
use fundsp::prelude::*;

type Boxed = Box<dyn AudioUnit>;
type Out = Vec<Vec<f32>>;

/// One call of a host.
#[derive(Clone, Copy, Debug)]
pub enum Call {
    Tick,
    Process(usize),
}

impl Call {
    pub fn len(&self) -> usize {
        match self {
            Call::Tick => 1,
            Call::Process(n) => *n,
        }
    }
}

/// Divide `total` samples into calls.
pub fn schedule(total: usize) -> Vec<Call> {
    let mut v = vec![];
    let mut n = 0;
    // Swarm: what kind of host this is.
    let host = choose(6);
    mark(host);
    while n < total {
        let left = total - n;
        let mut call = match host {
            0 => Call::Process(MAX_BUFFER_SIZE),
            1 => Call::Tick,
            2 => Call::Process(pick(&[1, 7, 8, 9, 63, 64, 0, 16, 65 - 2])),
            3 => {
                if chance(1, 2) {
                    Call::Tick
                } else {
                    Call::Process(MAX_BUFFER_SIZE - range(0, MAX_BUFFER_SIZE))
                }
            }
            4 => Call::Process(MAX_BUFFER_SIZE - range(0, MAX_BUFFER_SIZE)),
            _ => Call::Process(range(1, 9)),
        };
        if call.len() > left {
            call = Call::Process(left);
        }
        n += call.len();
        mark(1000 + call.len() as u64 + if matches!(call, Call::Tick) { 100 } else { 0 });
        v.push(call);
    }
    v
}

/// What lies in buffers where no signal is.
#[derive(Clone, Copy)]
pub struct Garbage(pub f32);

pub fn garbage() -> Garbage {
    Garbage(pick(&[0.0, 1.0e6, f32::NAN, -3.0]))
}

pub struct Host {
    pub unit: Boxed,
    input: BufferVec,
    output: BufferVec,
    garbage: Garbage,
    /// Sample number of the input.
    pub n: u64,
}

impl Host {
    pub fn new(unit: Boxed, garbage: Garbage) -> Host {
        let input = BufferVec::new(unit.inputs());
        let output = BufferVec::new(unit.outputs());
        Host { unit, input, output, garbage, n: 0 }
    }
    /// Make one call and append what comes out.
    pub fn call(&mut self, call: Call, sigs: &[Sig], poison: Option<(u64, u64, f32)>, out: &mut Out, rt: bool) {
        let value = |c: usize, n: u64| match poison {
            Some((a, b, x)) if n >= a && n < b => x,
            _ => sigs[c].at(n),
        };
        self.call_with(call, &value, out, rt)
    }
    /// Make one call with the input that `value` gives for a channel and sample number.
    pub fn call_with(&mut self, call: Call, value: &dyn Fn(usize, u64) -> f32, out: &mut Out, rt: bool) {
        let _q = Quiet::new();
        let ins = self.unit.inputs();
        let outs = self.unit.outputs();
        let size = call.len();
        match call {
            Call::Tick => {
                let frame: Vec<f32> = (0..ins).map(|c| value(c, self.n)).collect();
                let mut o = vec![self.garbage.0; outs];
                drop(_q);
                if rt {
                    realtime_checked("tick", || self.unit.tick(&frame, &mut o));
                } else {
                    self.unit.tick(&frame, &mut o);
                }
                let _q = Quiet::new();
                for c in 0..outs {
                    out[c].push(o[c]);
                }
            }
            Call::Process(size) => {
                for c in 0..ins {
                    for i in 0..MAX_BUFFER_SIZE {
                        let x = if i < size { value(c, self.n + i as u64) } else { self.garbage.0 };
                        self.input.set_f32(c, i, x);
                    }
                }
                for c in 0..outs {
                    for i in 0..MAX_BUFFER_SIZE {
                        self.output.set_f32(c, i, self.garbage.0);
                    }
                }
                drop(_q);
                if rt {
                    realtime_checked("process", || {
                        self.unit.process(size, &self.input.buffer_ref(), &mut self.output.buffer_mut())
                    });
                } else {
                    self.unit.process(size, &self.input.buffer_ref(), &mut self.output.buffer_mut());
                }
                let _q = Quiet::new();
                for c in 0..outs {
                    for i in 0..size {
                        out[c].push(self.output.at_f32(c, i));
                    }
                }
            }
        }
        self.n += size as u64;
        with(|c| c.sim_seconds += size as f64 / 44100.0);
    }

    pub fn run(&mut self, calls: &[Call], sigs: &[Sig]) -> Out {
        let mut out = vec![vec![]; self.unit.outputs()];
        for c in calls {
            self.call(*c, sigs, None, &mut out, false);
        }
        out
    }
}

fn realtime_checked(what: &str, f: impl FnOnce()) {
    let ((), a, d) = realtime(f);
    if a + d > 0 {
        violate("C13/allocation", format!("{what} of an allocated unit made {a} allocations and {d} deallocations"));
    }
}

fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// First difference of two outputs that ought to be bit for bit the same.
fn differ(a: &Out, b: &Out) -> Option<String> {
    for c in 0..a.len() {
        if a[c].len() != b[c].len() {
            return Some(format!("channel {c} has {} and {} samples", a[c].len(), b[c].len()));
        }
        for i in 0..a[c].len() {
            if !same(a[c][i], b[c][i]) {
                return Some(format!("channel {c} sample {i}: {} and {}", a[c][i], b[c][i]));
            }
        }
    }
    None
}

/// Largest difference relative to the signal.
pub fn distance(a: &Out, b: &Out) -> (f32, usize, usize) {
    let mut worst = (0.0f32, 0, 0);
    for c in 0..a.len() {
        let scale = a[c].iter().fold(1.0e-3f32, |m, x| if x.is_finite() { f32::max(m, x.abs()) } else { m });
        for i in 0..a[c].len() {
            let d = if same(a[c][i], b[c][i]) { 0.0 } else { (a[c][i] - b[c][i]).abs() / scale };
            let d = if d.is_nan() { f32::INFINITY } else { d };
            if d > worst.0 {
                worst = (d, c, i);
            }
        }
    }
    worst
}

fn tolerance(spec: &Spec) -> f32 {
    // Filters, feedback and products in a composition may amplify rounding differences.
    match (spec.tol(), spec.is_atom()) {
        (Tol::Exact, _) => 1.0e-4,
        (Tol::Close, true) => 1.0e-3,
        (Tol::Close, false) => 5.0e-3,
        (Tol::Loose, true) => 1.0e-2,
        (Tol::Loose, false) => 6.0e-2,
        (Tol::Jumpy, true) => 5.0e-2,
        (Tol::Jumpy, false) => 3.0e-1,
    }
}

fn total() -> usize {
    if chance(1, 40) {
        pick(&[3000, 6000])
    } else {
        pick(&[150, 40, 400, 1000])
    }
}

fn log(out: &Out) {
    for c in out {
        log_f32(c);
    }
}

fn describe(calls: &[Call]) -> String {
    format!("{calls:?}")
}

pub fn c17_on(spec: &Spec) -> (f32, String) {
    let sigs: Vec<Sig> = spec.ins().iter().map(|k| Sig::draw(*k)).collect();
    // Rounding differences of accumulated time grow with it.
    let n = match spec.tol() {
        Tol::Exact | Tol::Close => total(),
        _ => pick(&[150, 40, 400, 1000]),
    };
    let s0 = schedule(n);
    let s1 = schedule(n);
    let mut a = Host::new(spec.build(), garbage());
    let mut b = Host::new(spec.build(), garbage());
    trace!("unit {}", spec.name());
    trace!("first: {}", describe(&s0));
    trace!("second: {}", describe(&s1));
    if chance(1, 3) {
        let rate = pick(&[48000.0, 22050.0, 96000.0]);
        trace!("sample rate {rate}");
        a.unit.set_sample_rate(rate);
        b.unit.set_sample_rate(rate);
    }
    if chance(1, 8) {
        a.unit.allocate();
    }
    let mut x = a.run(&s0, &sigs);
    let mut y = b.run(&s1, &sigs);
    if chance(1, 4) {
        // A second part after a reset. (Envelopes may prepare their next segment before or after a
        // sample rate change, so there is none here.)
        trace!("reset");
        count("fault: reset");
        a.unit.reset();
        b.unit.reset();
        let m = pick(&[100, 40, 300]);
        let (s0, s1) = (schedule(m), schedule(m));
        trace!("first: {}", describe(&s0));
        trace!("second: {}", describe(&s1));
        let (x1, y1) = (a.run(&s0, &sigs), b.run(&s1, &sigs));
        for c in 0..x.len() {
            x[c].extend(&x1[c]);
            y[c].extend(&y1[c]);
        }
    }
    log(&x);
    log(&y);
    let (d, c, i) = distance(&x, &y);
    let msg = if d > 0.0 {
        format!(
            "unit {}: channel {c} sample {i} is {} in one division into calls and {} in another (relative difference {d})",
            spec.short(), x[c][i], y[c][i]
        )
    } else {
        String::new()
    };
    (d, msg)
}

fn draw_spec() -> Spec {
    let s = Spec::draw(2);
    for b in s.short().bytes() {
        mark(b as u64);
    }
    count(if s.is_atom() { "unit: catalogue" } else { "unit: composition" });
    s
}

fn c17() {
    let spec = draw_spec();
    if spec.blockwise() || spec.steep() {
        return;
    }
    nontrivial();
    let (d, msg) = c17_on(&spec);
    if d > tolerance(&spec) {
        violate("C17/division", msg);
    }
}

/// A random past for a unit: calls, faults in the input, settings of the sample rate.
fn history(h: &mut Host, sigs: &[Sig], n: usize, faults: bool) {
    let calls = schedule(n);
    let poison = if faults && chance(1, 3) {
        count("fault: NaN or infinite input");
        let a = choose(n as u64 + 1);
        Some((a, a + 1 + choose(20), pick(&[f32::NAN, f32::INFINITY, -1.0e30])))
    } else {
        None
    };
    trace!("history: {} poison {poison:?}", describe(&calls));
    let mut out = vec![vec![]; h.unit.outputs()];
    for c in calls {
        h.call(c, sigs, poison, &mut out, false);
    }
}

/// Reset at an arbitrary point against a fresh unit.
pub fn c18_on(spec: &Spec) -> (Option<String>, f32) {
    let sigs: Vec<Sig> = spec.ins().iter().map(|k| Sig::draw(*k)).collect();
    let past: Vec<Sig> = spec.ins().iter().map(|k| Sig::draw(*k)).collect();
    let g = garbage();
    let mut a = Host::new(spec.build(), g);
    let mut b = Host::new(spec.build(), g);
    trace!("unit {}", spec.name());
    let rate = pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    let early = chance(1, 2);
    if early {
        a.unit.set_sample_rate(rate);
    }
    for _ in 0..range(1, 2) {
        let n = pick(&[0, 100, 1, 333, 1200]);
        history(&mut a, &past, n, true);
        if !early && chance(1, 2) {
            a.unit.set_sample_rate(rate);
        }
        a.unit.reset();
        count("fault: reset");
    }
    if !early {
        a.unit.set_sample_rate(rate);
        a.unit.reset();
    }
    b.unit.set_sample_rate(rate);
    a.n = 0;
    let calls = schedule(total());
    trace!("at {rate} Hz, then: {}", describe(&calls));
    let x = a.run(&calls, &sigs);
    let y = b.run(&calls, &sigs);
    log(&x);
    (differ(&x, &y).map(|m| format!("unit {} after a reset and a new one: {m}", spec.short())), distance(&x, &y).0)
}

fn c18() {
    let spec = draw_spec();
    nontrivial();
    if let (Some(m), d) = c18_on(&spec) {
        if d > 1.0e-5 {
            violate("C18/reset", m);
        }
    }
}

/// Clone at an arbitrary point: both continue as if there were no other.
pub fn c19_on(spec: &Spec) -> (Option<String>, f32) {
    let sigs: Vec<Sig> = spec.ins().iter().map(|k| Sig::draw(*k)).collect();
    let other: Vec<Sig> = spec.ins().iter().map(|k| Sig::draw(*k)).collect();
    let g = garbage();
    let mut a = Host::new(spec.build(), g);
    let mut b = Host::new(spec.build(), g);
    trace!("unit {}", spec.name());
    let before = schedule(pick(&[100, 0, 1, 333]));
    a.run(&before, &sigs);
    b.run(&before, &sigs);
    let mut twin = Host::new(spec.build(), g);
    twin.run(&before, &sigs);
    let mut c = Host::new(a.unit.clone(), g);
    c.n = a.n;
    count("fault: clone");
    // The original and the clone take turns; the clone hears something else.
    let s0 = schedule(total());
    let s1 = schedule(total());
    trace!("before: {}; original: {}; clone: {}", describe(&before), describe(&s0), describe(&s1));
    let (mut x, mut z) = (vec![vec![]; a.unit.outputs()], vec![vec![]; a.unit.outputs()]);
    let (mut i, mut j) = (0, 0);
    while i < s0.len() || j < s1.len() {
        if j == s1.len() || (i < s0.len() && chance(1, 2)) {
            a.call(s0[i], &sigs, None, &mut x, false);
            i += 1;
        } else {
            if chance(1, 16) {
                c.unit.allocate();
            }
            c.call(s1[j], &other, None, &mut z, false);
            j += 1;
        }
    }
    let y = b.run(&s0, &sigs);
    log(&x);
    log(&z);
    if let Some(m) = differ(&x, &y) {
        return (Some(format!("unit {} that was cloned and one that was not: {m}", spec.short())), distance(&x, &y).0);
    }
    let w = twin.run(&s1, &other);
    let d = distance(&z, &w).0;
    (differ(&z, &w).map(|m| format!("clone of unit {} and a unit with the same past: {m}", spec.short())), d)
}

fn c19() {
    let spec = draw_spec();
    nontrivial();
    if let (Some(m), d) = c19_on(&spec) {
        if d > 1.0e-5 {
            violate("C19/clone", m);
        }
    }
}

/// Setting the sample rate that is already set, and allocating, at arbitrary points.
pub fn c20_on(spec: &Spec) -> (Option<String>, f32) {
    let sigs: Vec<Sig> = spec.ins().iter().map(|k| Sig::draw(*k)).collect();
    let g = garbage();
    let mut a = Host::new(spec.build(), g);
    let mut b = Host::new(spec.build(), g);
    trace!("unit {}", spec.name());
    let rate = pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    a.unit.set_sample_rate(rate);
    b.unit.set_sample_rate(rate);
    let calls = schedule(total());
    let y = b.run(&calls, &sigs);
    let mut x = vec![vec![]; a.unit.outputs()];
    for call in calls.iter() {
        if chance(1, 8) {
            trace!("sample rate {rate} set again");
            count("fault: sample rate set again");
            a.unit.set_sample_rate(rate);
        }
        if chance(1, 8) {
            trace!("allocate");
            count("fault: allocate in between");
            a.unit.allocate();
        }
        if chance(1, 16) {
            count("fault: empty call");
            let mut o = vec![vec![]; a.unit.outputs()];
            a.call(Call::Process(0), &sigs, None, &mut o, false);
        }
        a.call(*call, &sigs, None, &mut x, false);
    }
    log(&x);
    (differ(&x, &y).map(|m| format!("unit {} disturbed and undisturbed: {m}", spec.short())), distance(&x, &y).0)
}

fn c20() {
    let spec = draw_spec();
    nontrivial();
    if let (Some(m), d) = c20_on(&spec) {
        if d > 1.0e-5 {
            violate("C20/rate", m);
        }
    }
}

/// Part of C13: after `allocate`, processing does not allocate or free.
pub fn allocation(spec: &Spec) {
    let sigs: Vec<Sig> = spec.ins().iter().map(|k| Sig::draw(*k)).collect();
    let mut a = Host::new(spec.build(), garbage());
    trace!("unit {}", spec.name());
    if chance(1, 2) {
        a.unit.set_sample_rate(pick(&[44100.0, 48000.0, 22050.0, 96000.0]));
    }
    let mut out = vec![vec![]; a.unit.outputs()];
    if chance(1, 3) {
        // A past without allocation.
        for call in schedule(pick(&[20, 64, 200])) {
            a.call(call, &sigs, None, &mut out, false);
        }
        if chance(1, 2) {
            a.unit.set_sample_rate(pick(&[44100.0, 48000.0, 22050.0, 96000.0]));
        }
        if chance(1, 2) {
            a.unit.reset();
        }
    }
    a.unit.allocate();
    if chance(1, 4) {
        let c = a.unit.clone();
        a.unit = c;
        a.unit.allocate();
    }
    for call in schedule(total()) {
        a.call(call, &sigs, None, &mut out, true);
        if chance(1, 32) {
            realtime_checked("reset", || a.unit.reset());
        }
    }
    log(&out);
}

pub fn c13() {
    let spec = draw_spec();
    if spec.has("granular") {
        // Creates grains as it goes.
        return;
    }
    allocation(&spec);
}

/// The library's own hosts against calls: `Wave::render` and its like, big blocks, single samples.
fn c23() {
    let spec = draw_spec();
    if spec.blockwise() || spec.steep() {
        return;
    }
    let way = choose(6);
    // Generators for rendering, filters for filtering.
    let (kinds, make): (Vec<In>, Box<dyn Fn() -> Boxed>) = match way {
        0 | 2 if spec.ins().is_empty() => (vec![], Box::new(|| spec.build())),
        0 | 2 => (vec![], Box::new(|| spec.generator())),
        1 | 3 if !spec.ins().is_empty() => (spec.ins(), Box::new(|| spec.build())),
        1 | 3 => (vec![In::A], Box::new(|| spec.filter())),
        4 => (spec.ins(), Box::new(|| spec.build())),
        _ if spec.ins().is_empty() && spec.build().outputs() == 2 => (vec![], Box::new(|| spec.build())),
        _ if spec.ins().len() == 2 && spec.build().outputs() == 2 => (spec.ins(), Box::new(|| spec.build())),
        _ if chance(1, 2) => (vec![], Box::new(|| spec.generator())),
        _ => (vec![In::A], Box::new(|| spec.filter())),
    };
    let sigs: Vec<Sig> = kinds.iter().map(|k| Sig::draw(*k)).collect();
    let g = garbage();
    let mut a = Host::new(make(), g);
    let mut b = Host::new(make(), g);
    if a.unit.outputs() == 0 {
        return;
    }
    nontrivial();
    trace!("unit {}", spec.name());
    let rate = pick(&[44100.0, 48000.0, 22050.0, 96000.0]);
    // Both have been used before.
    let latent = way == 2 || way == 3;
    if chance(1, 2) {
        let old = pick(&[44100.0, 48000.0, 22050.0]);
        let past = schedule(pick(&[0, 64, 100]));
        trace!("past at {old} Hz: {}", describe(&past));
        for h in [&mut a, &mut b] {
            h.unit.set_sample_rate(old);
            h.run(&past, &sigs);
            if latent || old != rate {
                h.unit.reset();
                h.n = 0;
            }
        }
        count("used before");
    }
    let n = match spec.tol() {
        Tol::Exact | Tol::Close => total(),
        _ => pick(&[150, 40, 400, 1000]),
    };
    // Samples of input there are.
    let m = if (way == 1 || way == 3) && kinds.iter().all(|k| *k == In::A) { n - choose(std::cmp::min(n, 100) as u64) as usize } else { n };
    let first = a.n;
    b.unit.set_sample_rate(rate);
    let lost = if latent { b.unit.latency().unwrap_or(0.0).floor() as usize } else { 0 };
    let lost = if lost > 2000 { return } else { lost };
    if way == 2 && !spec.ins().is_empty() && spec.ins().iter().all(|k| *k == In::A) {
        // The path from a source through the unit has the latency of the unit.
        let mut unit = spec.build();
        if unit.outputs() == 1 {
            unit.set_sample_rate(rate);
            let (u, v) = (unit.latency(), b.unit.latency());
            if u.is_some() && u != v {
                violate("C23/offline", format!("unit {} has latency {u:?}, and with a source {v:?}", spec.short()));
            }
        }
    }
    if lost > 0 {
        count("latency discarded");
    }
    let duration = n as f64 / rate;
    let wave_in = || {
        let mut w = Wave::new(0, rate);
        for s in &sigs {
            let v: Vec<f32> = (0..m).map(|i| s.at(first + i as u64)).collect();
            w.push_channel(&v);
        }
        w
    };
    trace!("way {way} at {rate} Hz, {n} samples, {m} of input");
    let wave: Option<Wave> = match way {
        0 => Some(Wave::render(rate, duration, &mut *a.unit)),
        1 => Some(wave_in().filter(duration, &mut *a.unit)),
        2 => Some(Wave::render_latency(rate, duration, &mut *a.unit)),
        3 => Some(wave_in().filter_latency(duration, &mut *a.unit)),
        _ => None,
    };
    // Whether two channels were mixed.
    let mut mixed = false;
    let x: Out = if let Some(w) = wave {
        if w.length() != n || w.channels() != b.unit.outputs() || w.sample_rate() != rate {
            violate(
                "C23/offline",
                format!("unit {}: wave of {} samples in {} channels at {} Hz, expected {n} in {} at {rate}", spec.short(), w.length(), w.channels(), w.sample_rate(), b.unit.outputs()),
            );
        }
        (0..w.channels()).map(|c| w.channel(c).clone()).collect()
    } else if way == 4 {
        let outs = a.unit.outputs();
        a.unit.set_sample_rate(rate);
        let mut big = BigBlockAdapter::new(a.unit);
        let mut x: Out = vec![vec![]; outs];
        let mut done = 0;
        while done < n {
            let k = std::cmp::min(n - done, pick(&[n, 64, 65, 127, 128, 200, 1, 8]));
            let ins: Vec<Vec<f32>> = sigs.iter().map(|s| (0..k).map(|i| s.at(first + (done + i) as u64)).collect()).collect();
            let mut outv: Vec<Vec<f32>> = vec![vec![g.0; k]; outs];
            {
                let inr: Vec<&[f32]> = ins.iter().map(|v| &v[..]).collect();
                let mut outr: Vec<&mut [f32]> = outv.iter_mut().map(|v| &mut v[..]).collect();
                big.process_big(k, &inr, &mut outr);
            }
            for c in 0..outs {
                x[c].extend(&outv[c]);
            }
            done += k;
        }
        x
    } else {
        a.unit.set_sample_rate(rate);
        let u = &mut a.unit;
        let stereo = chance(1, 2);
        let (ins, outs) = (kinds.len(), u.outputs());
        // The methods of units and those of nodes.
        macro_rules! sample {
            ($u:expr, $i:expr) => {
                match (ins, outs) {
                    (0, 1) if stereo => {
                        let (l, r) = $u.get_stereo();
                        if !same(l, r) {
                            violate("C23/offline", format!("unit {}: get_stereo of a mono unit is ({l}, {r})", spec.short()));
                        }
                        vec![l]
                    }
                    (0, 2) if stereo => {
                        let (l, r) = $u.get_stereo();
                        vec![l, r]
                    }
                    (0, _) => vec![$u.get_mono()],
                    (1, _) => vec![$u.filter_mono(sigs[0].at(first + $i as u64))],
                    _ => {
                        let (l, r) = $u.filter_stereo(sigs[0].at(first + $i as u64), sigs[1].at(first + $i as u64));
                        vec![l, r]
                    }
                }
            };
        }
        macro_rules! node {
            ($i:ty, $o:ty) => {{
                let mut node = unit::<$i, $o>(u.clone());
                (0..n).map(|i| sample!(node, i)).collect()
            }};
        }
        let x: Vec<Vec<f32>> = match (chance(1, 2), ins, outs) {
            (false, ..) => (0..n).map(|i| sample!(u, i)).collect(),
            (true, 0, 1) => node!(U0, U1),
            (true, 0, 2) => node!(U0, U2),
            (true, 1, _) => node!(U1, U1),
            _ => node!(U2, U2),
        };
        mixed = ins == 0 && outs == 2 && !stereo;
        (0..x.first().map_or(0, |x| x.len())).map(|c| x.iter().map(|f| f[c]).collect()).collect()
    };
    let calls = schedule(n + lost);
    trace!("against {}", describe(&calls));
    let mut y = vec![vec![]; b.unit.outputs()];
    let end = first + m as u64;
    for c in &calls {
        b.call(*c, &sigs, Some((end, u64::MAX, 0.0)), &mut y, false);
    }
    let mut y: Out = y.into_iter().map(|c| c[lost..].to_vec()).collect();
    if mixed {
        y = vec![(0..n).map(|i| (y[0][i] + y[1][i]) * 0.5).collect()];
    }
    log(&x);
    let (d, c, i) = distance(&x, &y);
    if d > tolerance(&spec) {
        violate(
            "C23/offline",
            format!("unit {}: channel {c} sample {i} is {} offline and {} live (way {way}, relative difference {d})", spec.short(), x[c][i], y[c][i]),
        );
    }
}

/// Threads that construct and play units at the same time, in an order of their own and among
/// other units, in a process in which nothing has been constructed before.
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// Render in a copy of this process that goes away.
fn alone(f: impl FnOnce() -> Out) -> Option<Out> {
    use std::io::{Read, Write};
    let (mut rx, mut tx) = std::io::pipe().ok()?;
    let pid = unsafe { fork() };
    if pid < 0 {
        return None;
    }
    if pid == 0 {
        drop(rx);
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let mut bytes: Vec<u8> = vec![];
        if let Ok(out) = &out {
            for c in out {
                bytes.extend((c.len() as u32).to_le_bytes());
                for x in c {
                    bytes.extend(x.to_bits().to_le_bytes());
                }
            }
        }
        let ok = out.is_ok() && tx.write_all(&bytes).is_ok();
        unsafe { _exit(if ok { 0 } else { 1 }) }
    }
    drop(tx);
    let mut bytes = vec![];
    let read = rx.read_to_end(&mut bytes);
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    if status != 0 || read.is_err() {
        return None;
    }
    let word = |i: usize| u32::from_le_bytes(bytes[i..i + 4].try_into().unwrap());
    let mut out = vec![];
    let mut i = 0;
    while i < bytes.len() {
        let n = word(i) as usize;
        out.push((0..n).map(|k| f32::from_bits(word(i + 4 + 4 * k))).collect());
        i += 4 + 4 * n;
    }
    Some(out)
}

fn c21() {
    let n = range(1, 3);
    let mut jobs = vec![];
    for _ in 0..n {
        // Shared tables are made when they are first needed: let the threads meet there.
        let spec = if chance(1, 2) {
            let tables: Vec<usize> = (0..catalogue().len()).filter(|k| catalogue()[*k].tol == Tol::Jumpy).collect();
            Spec::Atom(pick(&tables), Par::draw())
        } else {
            draw_spec()
        };
        trace!("unit {}: {}", jobs.len(), spec.name());
        let sigs: Vec<Sig> = spec.ins().iter().map(|k| Sig::draw(*k)).collect();
        let calls = schedule(pick(&[64, 150, 300]));
        jobs.push((spec, sigs, calls, pick(&[44100.0, 48000.0])));
    }
    let jobs = std::rc::Rc::new(jobs);
    let heard: std::rc::Rc<std::cell::RefCell<Vec<Option<Out>>>> = std::rc::Rc::new(std::cell::RefCell::new(vec![None; n]));
    let play = |jobs: &[(Spec, Vec<Sig>, Vec<Call>, f64)], k: usize| -> Host {
        let mut h = Host::new(jobs[k].0.build(), Garbage(0.0));
        h.unit.set_sample_rate(jobs[k].3);
        h
    };
    let check = |name: &str, heard: &mut Vec<Option<Out>>, k: usize, out: Out| {
        log(&out);
        match &heard[k] {
            None => heard[k] = Some(out),
            Some(o) => {
                if let Some(m) = differ(o, &out) {
                    violate("C21/construction", format!("unit {name} constructed twice: {m}"));
                }
            }
        }
    };
    // What a process hears that makes nothing but this unit.
    if chance(3, 4) {
        for k in 0..n {
            if let Some(out) = alone(|| {
                let mut h = play(&jobs, k);
                h.run(&jobs[k].2, &jobs[k].1)
            }) {
                count("unit constructed alone in a process");
                check(&jobs[k].0.short(), &mut heard.borrow_mut(), k, out);
            }
        }
    }
    let mut sched = Sched::new();
    for t in 0..range(2, 4) {
        let (jobs, heard) = (jobs.clone(), heard.clone());
        let plays = range(1, 3);
        sched.spawn(&format!("thread{t}"), move || {
            for _ in 0..plays {
                if chance(1, 3) {
                    // Something else.
                    let other = Spec::draw(1);
                    trace!("thread{t} constructs {}", other.short());
                    let mut u = other.build();
                    if chance(1, 2) {
                        u.reset();
                    }
                    yield_now();
                }
                let k = range(0, jobs.len() - 1);
                trace!("thread{t} constructs unit {k}");
                let mut h = play(&jobs, k);
                yield_now();
                let mut out = vec![vec![]; h.unit.outputs()];
                for c in jobs[k].2.iter() {
                    h.call(*c, &jobs[k].1, None, &mut out, false);
                    if chance(1, 2) {
                        yield_now();
                    }
                }
                check(&jobs[k].0.short(), &mut heard.borrow_mut(), k, out);
            }
        });
    }
    sched.run();
    for k in 0..n {
        let mut h = play(&jobs, k);
        let out = h.run(&jobs[k].2, &jobs[k].1);
        check(&jobs[k].0.short(), &mut heard.borrow_mut(), k, out);
    }
    nontrivial();
}

/// For development: what each atom of the catalogue does.
pub fn survey(which: &str, runs: u64) {
    for (k, atom) in catalogue().iter().enumerate() {
        let mut worst = 0.0f32;
        let mut msg = String::new();
        let mut fails = 0;
        for r in 0..runs {
            let mut ctx = Ctx::new(Draws::Generate(Rng::new(mix(r, k as u64))), vec![], true);
            ctx.prop = "C13";
            set_ctx(Some(ctx));
            reset_alloc_state();
            let res = std::panic::catch_unwind(|| {
                let spec = Spec::Atom(k, Par::draw());
                match which {
                    "C17" => c17_on(&spec),
                    "C18" => c18_on(&spec).flip(),
                    "C19" => c19_on(&spec).flip(),
                    "C20" => c20_on(&spec).flip(),
                    _ => {
                        allocation(&spec);
                        (0.0, String::new())
                    }
                }
            });
            reset_alloc_state();
            let ctx = set_ctx(None).unwrap();
            let (d, m) = match res {
                Ok(x) => x,
                Err(_) => (f32::INFINITY, ctx.violation.map(|v| v.message).unwrap_or("panic".into())),
            };
            if d > 0.0 {
                fails += 1;
            }
            if d > worst {
                worst = d;
                msg = format!("run {r} {m}\n      {}", ctx.trace.iter().map(|s| s.chars().take(300).collect::<String>()).collect::<Vec<_>>().join("\n      "));
            }
        }
        if worst > 0.0 {
            println!("{:<20} {:?} {worst:>12} {fails}/{runs}  {msg}", atom.name, atom.tol);
        }
    }
}

trait Flip {
    fn flip(self) -> (f32, String);
}
impl Flip for (Option<String>, f32) {
    fn flip(self) -> (f32, String) {
        (self.1, self.0.unwrap_or_default())
    }
}

pub fn props() -> Vec<Prop> {
    const REAL: &str = "every opcode of the prelude and its compositions (all real)";
    const STUB: &str = "the host: division of time into calls, buffers with garbage around the signal, input signals";
    let p = |id, title, run, rule| Prop { id, title, run, fresh: false, rule, real: REAL, stub: STUB, quick_s: 40.0, thorough_s: 600.0 };
    vec![
        p("C17", "Division into calls does not matter", c17, "one random unit, two random divisions of the same input; non-trivial: every run"),
        p("C18", "Reset returns to the start", c18, "one random unit with a random past, reset, against a new one; non-trivial: every run"),
        p("C19", "Clones are independent", c19, "one random unit, cloned at a random point, both continued by turns; non-trivial: every run"),
        Prop {
            fresh: true,
            ..p("C21", "Construction is deterministic", c21, "two to four threads construct and play the same units at the same time, each run in a new process; non-trivial: every run")
        },
        p("C23", "Offline rendering equals live rendering", c23, "one random unit through Wave::render, filter, render_latency, filter_latency, process_big or single samples, against random calls; non-trivial: the unit has outputs"),
        p("C20", "Setting the same sample rate keeps state", c20, "one random unit, disturbed at random points, against an undisturbed one; non-trivial: every run"),
    ]
}
