//! A unit with a complete, known state, so that what a structure does to its units is visible
//! in its output: which unit ran, how many samples it has produced, at which sample rate and
//! with which history of settings.

use crate::core::*;
use fundsp::prelude::*;

/// State of a probe, also used by the reference models.
#[derive(Clone, PartialEq, Debug)]
pub struct State {
    pub uid: u64,
    pub n: u64,
    pub param: u64,
    pub sr: f32,
}

impl State {
    pub fn new(uid: u64) -> Self {
        State { uid, n: 0, param: 0, sr: DEFAULT_SR as f32 }
    }
    /// Output of `channel` for the current sample, without advancing.
    pub fn value(&self, channel: usize, input: &[f32]) -> f32 {
        let h = mix(
            mix(self.uid.wrapping_mul(131).wrapping_add(channel as u64), self.n),
            self.param ^ ((self.sr.to_bits() as u64) << 20),
        );
        let mut x = ((h >> 40) as i64 - (1 << 23)) as f32 * (1.0 / (1 << 23) as f32);
        for (i, v) in input.iter().enumerate() {
            x += *v * self.weight(channel, i);
        }
        x
    }
    pub fn weight(&self, channel: usize, i: usize) -> f32 {
        let h = mix(self.uid ^ 0x55, (channel * 16 + i) as u64);
        let w = 0.125 + ((h >> 48) as f32) * (0.375 / 65536.0);
        if h & 1 == 0 {
            w
        } else {
            -w
        }
    }
    pub fn set(&mut self, v: f32) {
        self.param = mix(self.param, v.to_bits() as u64);
    }
}

pub struct Probe {
    pub state: State,
    ins: usize,
    outs: usize,
    scratch: Vec<f32>,
}

fn register(uid: u64, d: i64) {
    if active() {
        with(|c| {
            *c.live.entry(uid).or_insert(0) += d;
        });
    }
}

/// Number of instances of probe `uid` that are alive.
pub fn live(uid: u64) -> i64 {
    with(|c| c.live.get(&uid).copied().unwrap_or(0))
}

pub fn live_total() -> i64 {
    with(|c| c.live.values().sum())
}

impl Probe {
    pub fn new(uid: u64, ins: usize, outs: usize) -> Self {
        register(uid, 1);
        Probe { state: State::new(uid), ins, outs, scratch: Vec::new() }
    }
    pub fn boxed(uid: u64, ins: usize, outs: usize) -> Box<dyn AudioUnit> {
        Box::new(Probe::new(uid, ins, outs))
    }
}

impl Clone for Probe {
    fn clone(&self) -> Self {
        register(self.state.uid, 1);
        Probe { state: self.state.clone(), ins: self.ins, outs: self.outs, scratch: self.scratch.clone() }
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        register(self.state.uid, -1);
        if active() && in_rt() {
            count("unit dropped on the audio thread");
        }
    }
}

impl AudioUnit for Probe {
    fn reset(&mut self) {
        self.state.n = 0;
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        self.state.sr = sample_rate as f32;
    }
    fn tick(&mut self, input: &[f32], output: &mut [f32]) {
        assert!(input.len() >= self.ins && output.len() >= self.outs, "probe got too few channels");
        for (c, x) in output.iter_mut().enumerate().take(self.outs) {
            *x = self.state.value(c, &input[..self.ins]);
        }
        self.state.n += 1;
    }
    fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
        assert!(
            (self.ins == 0 || input.channels() >= self.ins) && output.channels() >= self.outs && size <= MAX_BUFFER_SIZE,
            "probe got too few channels or too many samples"
        );
        // Units may allocate here if they have not been told to do it in advance.
        if self.scratch.capacity() < 8 {
            self.scratch.reserve(8);
        }
        let mut frame = [0.0f32; 16];
        for i in 0..size {
            for c in 0..self.ins {
                frame[c] = input.at_f32(c, i);
            }
            for c in 0..self.outs {
                output.set_f32(c, i, self.state.value(c, &frame[..self.ins]));
            }
            self.state.n += 1;
        }
        // What lies between the block and the next full vector is garbage.
        for i in size..fundsp::simd_items(size) << 3 {
            for c in 0..self.outs {
                output.set_f32(c, i, 1.0e6);
            }
        }
    }
    fn set(&mut self, setting: Setting) {
        if let Parameter::Value(v) = setting.parameter() {
            self.state.set(*v);
        }
    }
    fn inputs(&self) -> usize {
        self.ins
    }
    fn outputs(&self) -> usize {
        self.outs
    }
    fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
        fundsp::signal::Routing::Arbitrary(0.0).route(input, self.outs)
    }
    fn get_id(&self) -> u64 {
        1000
    }
    fn footprint(&self) -> usize {
        std::mem::size_of::<Self>()
    }
    fn allocate(&mut self) {
        self.scratch.reserve(8);
    }
}

/// The input signal of a run: a function of channel and global sample index.
pub fn input_at(channel: usize, i: u64) -> f32 {
    let h = mix(0xabc + channel as u64, i);
    ((h >> 40) as i64 - (1 << 23)) as f32 * (1.0 / (1 << 23) as f32)
}

pub fn ease(smooth: bool, x: f64) -> f64 {
    let x = x.clamp(0.0, 1.0);
    if smooth {
        ((x * 6.0 - 15.0) * x + 10.0) * x * x * x
    } else {
        use std::f64::consts::PI;
        let x = x * PI * 0.5;
        16.0 * x * (PI - x) / (5.0 * PI * PI - 4.0 * x * (PI - x))
    }
}

pub fn fade_of(smooth: bool) -> Fade {
    if smooth {
        Fade::Smooth
    } else {
        Fade::Power
    }
}

/// Render a block of `size` samples through `unit`, by `process` or (when `ticks`) by `tick`,
/// on the audio thread. Returns output[channel][i] and the allocations and deallocations made.
pub fn render(unit: &mut dyn AudioUnit, size: usize, ticks: bool, input: &[Vec<f32>]) -> (Vec<Vec<f32>>, u64, u64) {
    let ins = unit.inputs();
    let outs = unit.outputs();
    let mut out = vec![vec![0.0f32; size]; outs];
    let (mut a, mut f) = (0, 0);
    if ticks {
        let mut inf = vec![0.0f32; ins];
        let mut outf = vec![0.0f32; outs];
        for i in 0..size {
            for c in 0..ins {
                inf[c] = input[c][i];
            }
            outf.fill(9.0e8);
            let (_, da, df) = realtime(|| unit.tick(&inf, &mut outf));
            a += da;
            f += df;
            for c in 0..outs {
                out[c][i] = outf[c];
            }
        }
    } else {
        let mut inb = BufferVec::new(ins);
        let mut outb = BufferVec::new(outs);
        for c in 0..ins {
            for i in 0..MAX_BUFFER_SIZE {
                inb.set_f32(c, i, if i < size { input[c][i] } else { -7.0e7 });
            }
        }
        for c in 0..outs {
            for i in 0..MAX_BUFFER_SIZE {
                outb.set_f32(c, i, 3.0e7);
            }
        }
        let (_, da, df) = realtime(|| unit.process(size, &inb.buffer_ref(), &mut outb.buffer_mut()));
        a += da;
        f += df;
        for c in 0..outs {
            for i in 0..size {
                out[c][i] = outb.at_f32(c, i);
            }
        }
    }
    (out, a, f)
}
