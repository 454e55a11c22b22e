//! The catalogue: every opcode of the prelude with random parameters, what its inputs mean, and
//! random compositions of them with static and dynamic operators. `Spec` is a description that
//! can be built any number of times.

use crate::core::*;
use fundsp::hacker32::*;
use std::sync::Arc;

type Unit0 = Box<dyn AudioUnit>;

/// What an input of a unit expects.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    /// Audio in -1...1.
    A,
    /// Frequency in Hz.
    F,
    /// Q.
    Q,
    /// Amplitude gain.
    G,
    /// In -1...1, slow.
    P,
    /// In 0...1, slow.
    U,
    /// Delay in seconds, 0.0005...0.004.
    D,
    /// Delay in samples, 0.1...4.
    S,
    /// Speed.
    V,
    /// A gate, zero or one.
    K,
    /// Low frequency in Hz.
    L,
    /// Frequency in Hz, constant: wavetables choose their table every few samples.
    H,
}
use In::*;

/// Parameters of an atom.
#[derive(Clone, Debug)]
pub struct Par(pub [u16; 6]);

impl Par {
    pub fn draw() -> Par {
        let mut v = [0u16; 6];
        for x in v.iter_mut() {
            *x = choose(1024) as u16;
        }
        Par(v)
    }
    fn u(&self, i: usize) -> f32 {
        self.0[i] as f32 / 1024.0
    }
    fn lin(&self, i: usize, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * self.u(i)
    }
    fn hz(&self, i: usize) -> f32 {
        20.0 * (500.0f32).powf(self.u(i))
    }
    fn q(&self, i: usize) -> f32 {
        0.3 * (20.0f32).powf(self.u(i))
    }
    fn gain(&self, i: usize) -> f32 {
        0.25 * (16.0f32).powf(self.u(i))
    }
    fn int(&self, i: usize, n: usize) -> usize {
        self.0[i] as usize % n
    }
}

/// How far outputs that should be equal may be apart because of rounding.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tol {
    /// The same operations in every call.
    Exact,
    /// Vector and scalar versions of the same formula.
    Close,
    /// Accumulated time, table lookups and the like.
    Loose,
    /// Waveforms with jumps, where a small phase difference is a large one in amplitude.
    Jumpy,
}

pub struct Atom {
    pub name: &'static str,
    pub ins: &'static [In],
    pub tol: Tol,
    /// Documented to work once per call, so that the division into calls matters.
    pub blockwise: bool,
    pub make: fn(&Par) -> Unit0,
}

fn bx<X: AudioUnit + 'static>(x: X) -> Unit0 {
    Box::new(x)
}

fn test_wave(p: &Par) -> Arc<Wave> {
    let n = 40 + p.int(4, 200);
    let mut w = Wave::new(2, 44100.0);
    for i in 0..n {
        let a = ((mix(7, i as u64) >> 40) as f32) / (1u64 << 24) as f32 - 0.5;
        w.push((a, (i as f32 * 0.1).sin()));
    }
    Arc::new(w)
}

macro_rules! atoms {
    ($( $name:literal [$($i:ident)*] $tol:ident $p:ident => $e:expr; )*) => {
        vec![$( Atom { name: $name, ins: &[$($i),*], tol: Tol::$tol, blockwise: false, make: |$p: &Par| bx($e) }, )*]
    };
}

pub fn atoms() -> Vec<Atom> {
    let mut v = atoms! {
        "dc" [] Exact p => dc(p.lin(0, -1.0, 1.0));
        "dc2" [] Exact p => dc((p.lin(0, -1.0, 1.0), p.lin(1, -1.0, 1.0)));
        "zero" [] Exact _p => zero();
        "multizero" [] Exact _p => multizero::<U3>();
        "pass" [A] Exact _p => pass();
        "multipass" [A A A] Exact _p => multipass::<U3>();
        "monitor_sample" [A] Exact _p => monitor(&shared(0.0), Meter::Sample);
        "monitor_peak" [A] Exact p => monitor(&shared(0.0), Meter::Peak(p.lin(0, 0.0, 1.0) as f64));
        "meter_sample" [A] Exact _p => meter(Meter::Sample);
        "meter_peak" [A] Loose p => meter(Meter::Peak(p.lin(0, 0.001, 0.1) as f64));
        "meter_rms" [A] Loose p => meter(Meter::Rms(p.lin(0, 0.001, 0.1) as f64));
        "sink" [A A] Exact _p => pass() | sink();
        "multisink" [A A A] Exact _p => multisink::<U2>() | pass();
        "reverse" [A A A] Exact _p => reverse::<U3>();
        "sine" [F] Loose _p => sine();
        "sine64" [F] Loose _p => fundsp::hacker::sine();
        "sine_hz" [] Loose p => sine_hz(p.hz(0));
        "sine_phase" [F] Loose p => sine().phase(p.u(0));
        "ramp" [F] Loose _p => ramp();
        "ramp_hz" [] Loose p => ramp_hz(p.hz(0));
        "rossler" [L] Exact _p => rossler();
        "lorenz" [L] Exact _p => lorenz();
        "add" [A] Exact p => add(p.lin(0, -1.0, 1.0));
        "sub" [A A] Exact p => sub((p.lin(0, -1.0, 1.0), p.lin(1, -1.0, 1.0)));
        "mul" [A] Exact p => mul(p.lin(0, -1.0, 1.0));
        "butterpass" [A F] Close _p => butterpass();
        "butterpass_hz" [A] Close p => butterpass_hz(p.hz(0));
        "butterpass64" [A F] Close _p => fundsp::hacker::butterpass();
        "lowpole" [A F] Close _p => lowpole();
        "lowpole_hz" [A] Close p => lowpole_hz(p.hz(0));
        "allpole" [A S] Close _p => allpole();
        "allpole_delay" [A] Close p => allpole_delay(p.lin(0, 0.1, 3.0));
        "highpole" [A F] Close _p => highpole();
        "highpole_hz" [A] Close p => highpole_hz(p.hz(0));
        "resonator" [A F F] Close _p => resonator();
        "resonator_hz" [A] Close p => resonator_hz(p.hz(0), p.hz(1));
        "biquad" [A] Close p => biquad(p.lin(0, -0.9, 0.9) * (1.0 + p.lin(1, -0.5, 0.5)), p.lin(1, -0.5, 0.5), p.u(2), p.u(3), p.u(4));
        "moog" [A F U] Close _p => moog();
        "moog_q" [A F] Close p => moog_q(p.lin(0, 0.0, 0.9));
        "moog_hz" [A] Close p => moog_hz(p.hz(0), p.lin(1, 0.0, 0.9));
        "envelope" [] Loose p => { let f = p.lin(0, 1.0, 30.0); envelope(move |t| (t * f).sin()) };
        "envelope_pair" [] Loose p => { let f = p.lin(0, 1.0, 30.0); envelope(move |t| ((t * f).sin(), (-t * f).exp())) };
        "lfo64" [] Loose p => { let f = p.lin(0, 1.0, 30.0) as f64; fundsp::hacker::lfo(move |t: f64| (t * f).cos()) };
        "lfo2" [P] Loose p => { let f = p.lin(0, 1.0, 30.0); lfo2(move |t, x| (t * f).sin() * 0.5 + x) };
        "envelope3" [P U] Loose p => { let f = p.lin(0, 1.0, 30.0); envelope3(move |t, x, y| (t * f).sin() * y + x) };
        "lfo_in" [P P U] Loose p => { let f = p.lin(0, 1.0, 30.0); lfo_in(move |t, i: &Frame<f32, U3>| (i[0] * i[1] + (t * f).sin(), i[2])) };
        "adsr_live" [K] Loose p => adsr_live(p.lin(0, 0.002, 0.02), p.lin(1, 0.002, 0.02), p.lin(2, 0.2, 0.9), p.lin(3, 0.002, 0.02));
        "mls_bits" [] Exact p => mls_bits(1 + p.int(0, 31) as u64);
        "mls" [] Exact _p => mls();
        "noise" [] Exact _p => noise();
        "noise_seed" [] Exact p => white().seed(p.0[0] as u64);
        "hold" [A F] Exact p => hold(p.u(0));
        "hold_hz" [A] Exact p => hold_hz(p.hz(0), p.u(1));
        "fir" [A] Close p => fir((p.u(0), p.u(1), p.u(2), p.u(3)));
        "fir3" [A] Close p => fir3(p.u(0));
        "tick" [A] Exact _p => tick();
        "multitick" [A A] Exact _p => multitick::<U2>();
        "delay" [A] Exact p => delay(p.lin(0, 0.0, 0.01));
        "delay_ticks" [A] Exact p => delay(p.int(0, 200) as f32 / 44100.0);
        "tap" [A D] Close _p => tap(0.0005, 0.004);
        "multitap" [A D D] Close _p => multitap::<U2>(0.0005, 0.004);
        "tap_linear" [A D] Close _p => tap_linear(0.0005, 0.004);
        "multitap_linear" [A D D] Close _p => multitap_linear::<U2>(0.0005, 0.004);
        "oversample" [A] Close p => { let g = p.gain(0); oversample(shape_fn(move |x| (x * g).tanh())) };
        "oversample_sine" [F] Loose _p => oversample(sine());
        "resample" [V] Close p => resample(sine_hz(p.hz(1)) * p.u(0) + noise());
        "feedback" [A] Close p => feedback(lowpole_hz(p.hz(0)) * p.lin(1, -0.8, 0.8));
        "feedback_delay" [A A] Close p => feedback((delay(p.lin(0, 0.0, 0.004)) | tick()) * p.lin(1, -0.8, 0.8));
        "feedback2" [A] Close p => feedback2(delay(p.lin(0, 0.0, 0.004)), lowpole_hz(p.hz(1)) * p.lin(2, -0.8, 0.8));
        "fdn" [A A] Close p => fdn::<U2, _>(stacki::<U2, _, _>(|i| delay(0.001 * (i + 1) as f32) >> lowpole_hz(1000.0)) * p.lin(0, -0.8, 0.8));
        "fdn2" [A A] Close p => fdn2::<U2, _, _>(stacki::<U2, _, _>(|i| delay(0.001 * (i + 1) as f32)), multipass::<U2>() * p.lin(0, -0.8, 0.8));
        "allnest_c" [A] Close p => allnest_c(p.lin(0, -0.9, 0.9), delay(p.lin(1, 0.0, 0.003)));
        "allnest" [A P] Close p => allnest(delay(p.lin(1, 0.0, 0.003)));
        "map" [A A] Exact p => { let k = p.u(0); map(move |i: &Frame<f32, U2>| (i[0] * k + i[1], i[0] - i[1])) };
        "dcblock" [A] Close _p => dcblock();
        "dcblock_hz" [A] Close p => dcblock_hz(p.hz(0) * 0.1);
        "declick" [A] Loose _p => declick();
        "declick_s" [A] Loose p => declick_s(p.lin(0, 0.001, 0.02));
        "declick64" [A] Loose p => fundsp::hacker::declick_s(p.lin(0, 0.001, 0.02));
        "shape_fn" [A] Exact p => { let k = p.gain(0); shape_fn(move |x| (x * k).sin()) };
        "shape_tanh" [A] Loose p => shape(Tanh(p.gain(0)));
        "shape_atan" [A] Loose p => shape(Atan(p.gain(0)));
        "shape_softsign" [A] Close p => shape(Softsign(p.gain(0)));
        "shape_crush" [A] Exact p => shape(Crush(1.0 + p.int(0, 20) as f32));
        "shape_softcrush" [A] Loose p => shape(SoftCrush(1.0 + p.int(0, 20) as f32));
        "shape_clip" [A] Exact p => shape(Clip(p.gain(0)));
        "shape_adaptive" [A] Loose p => shape(Adaptive::new(p.lin(0, 0.001, 0.1), Tanh(p.gain(1))));
        "clip" [A] Exact _p => clip();
        "clip_to" [A] Exact p => clip_to(p.lin(0, -1.0, 0.0), p.lin(1, 0.0, 1.0));
        "panner" [A P] Close _p => panner();
        "pan" [A] Close p => pan(p.lin(0, -1.0, 1.0));
        "follow" [A] Close p => follow(p.lin(0, 0.0001, 0.02));
        "follow64" [A] Close p => fundsp::hacker::follow(p.lin(0, 0.0001, 0.02));
        "afollow" [A] Close p => afollow(p.lin(0, 0.0001, 0.02), p.lin(1, 0.0001, 0.02));
        "limiter" [A] Close p => limiter(p.lin(0, 0.0005, 0.006), p.lin(1, 0.0005, 0.006));
        "limiter_stereo" [A A] Close p => limiter_stereo(p.lin(0, 0.0005, 0.006), p.lin(1, 0.0005, 0.006));
        "pinkpass" [A] Close _p => pinkpass();
        "pink" [] Close _p => pink::<>();
        "brown" [] Close _p => brown::<>();
        "split" [A] Exact _p => split::<U3>();
        "multisplit" [A A] Exact _p => multisplit::<U2, U2>();
        "join" [A A A] Close _p => join::<U3>();
        "multijoin" [A A A A] Close _p => multijoin::<U2, U2>();
        "reverb_stereo" [A A] Close p => reverb_stereo(p.lin(0, 10.0, 20.0), p.lin(1, 0.5, 5.0), p.u(2));
        "reverb2_stereo" [A A] Loose p => reverb2_stereo(p.lin(0, 10.0, 20.0), p.lin(1, 0.5, 5.0), p.u(2), p.u(3), highshelf_hz(1000.0, 1.0, 0.7));
        "reverb3_stereo" [A A] Close p => reverb3_stereo(p.lin(1, 0.5, 5.0), p.u(2), lowpole_hz(5000.0));
        "reverb4_stereo" [A A] Close p => reverb4_stereo(p.lin(0, 10.0, 20.0), p.lin(1, 0.5, 5.0));
        "dsf_saw" [F U] Loose _p => dsf_saw();
        "dsf_saw_r" [F] Loose p => dsf_saw_r(p.lin(0, 0.1, 0.9));
        "dsf_square" [F U] Loose _p => dsf_square();
        "dsf_square_r" [F] Loose p => dsf_square_r(p.lin(0, 0.1, 0.9));
        "pluck" [A] Close p => pluck(p.lin(0, 100.0, 2000.0), p.lin(1, 0.1, 0.9), p.u(2));
        "saw" [H] Jumpy _p => saw();
        "square" [H] Jumpy _p => square();
        "triangle" [H] Jumpy _p => triangle();
        "organ" [H] Jumpy _p => organ();
        "soft_saw" [H] Jumpy _p => soft_saw();
        "hammond" [H] Jumpy _p => hammond();
        "saw_hz" [] Jumpy p => saw_hz(p.hz(0));
        "triangle_hz" [] Jumpy p => triangle_hz(p.hz(0));
        "pulse" [H U] Jumpy _p => pulse();
        "lowpass" [A F Q] Close _p => lowpass();
        "lowpass_hz" [A] Close p => lowpass_hz(p.hz(0), p.q(1));
        "lowpass_q" [A F] Close p => lowpass_q(p.q(0));
        "lowpass64" [A F Q] Close _p => fundsp::hacker::lowpass();
        "highpass" [A F Q] Close _p => highpass();
        "highpass_hz" [A] Close p => highpass_hz(p.hz(0), p.q(1));
        "bandpass" [A F Q] Close _p => bandpass();
        "bandpass_hz" [A] Close p => bandpass_hz(p.hz(0), p.q(1));
        "notch" [A F Q] Close _p => notch();
        "notch_hz" [A] Close p => notch_hz(p.hz(0), p.q(1));
        "peak" [A F Q] Close _p => peak();
        "peak_hz" [A] Close p => peak_hz(p.hz(0), p.q(1));
        "allpass" [A F Q] Close _p => allpass();
        "allpass_hz" [A] Close p => allpass_hz(p.hz(0), p.q(1));
        "bell" [A F Q G] Close _p => bell();
        "bell_hz" [A] Close p => bell_hz(p.hz(0), p.q(1), p.gain(2));
        "bell_q" [A F] Close p => bell_q(p.q(1), p.gain(2));
        "lowshelf" [A F Q G] Close _p => lowshelf();
        "lowshelf_hz" [A] Close p => lowshelf_hz(p.hz(0), p.q(1), p.gain(2));
        "highshelf" [A F Q G] Close _p => highshelf();
        "highshelf_hz" [A] Close p => highshelf_hz(p.hz(0), p.q(1), p.gain(2));
        "lowrez" [A L U] Close _p => lowrez();
        "lowrez_hz" [A] Close p => lowrez_hz(p.hz(0) * 0.3, p.lin(1, 0.1, 0.9));
        "bandrez" [A L U] Close _p => bandrez();
        "bandrez_hz" [A] Close p => bandrez_hz(p.hz(0) * 0.3, p.lin(1, 0.1, 0.9));
        "morph" [A F Q P] Close _p => morph();
        "morph_hz" [A] Close p => morph_hz(p.hz(0), p.q(1), p.lin(2, -1.0, 1.0));
        "wavech" [] Exact p => wavech(&test_wave(p), p.int(0, 2), if p.int(1, 2) == 0 { None } else { Some(p.int(2, 30)) });
        "wavech_at" [] Exact p => { let w = test_wave(p); let n = w.length(); wavech_at(&w, p.int(0, 2), p.int(2, 20), n - p.int(3, 10), if p.int(1, 2) == 0 { None } else { Some(p.int(5, 30)) }) };
        "chorus" [A] Loose p => chorus(p.0[0] as u64, p.lin(1, 0.0, 0.005), p.lin(2, 0.001, 0.005), p.u(3));
        "flanger" [A] Loose p => flanger(p.lin(0, -0.8, 0.8), 0.0005, 0.004, |t| 0.002 + 0.001 * (t * 5.0).sin());
        "phaser" [A] Loose p => phaser(p.lin(0, 0.0, 0.7), |t| 0.5 + 0.4 * (t * 5.0).sin());
        "var" [] Exact p => var(&shared(p.u(0)));
        "var_fn" [] Exact p => var_fn(&shared(p.u(0)), |x| (x, x * 0.5));
        "timer" [A] Exact _p => timer(&shared(0.0)) | pass();
        "snoop" [A] Exact p => snoop(64 + p.int(0, 400)).1;
        "resynth" [A] Close p => resynth::<U1, U1, _>(4 << p.int(0, 5), |fft| { for i in 0..fft.bins() { fft.set(0, i, fft.at(0, i)); } });
        "resynth2" [A A] Close p => resynth::<U2, U2, _>(4 << p.int(0, 5), |fft| { let t = fft.time() as f32; for i in 0..fft.bins() { fft.set(0, i, fft.at(1, i) * t.sin()); fft.set(1, i, fft.at(0, i)); } });
        "impulse" [] Exact _p => impulse::<U2>();
        "rotate" [A A] Close p => rotate(p.lin(0, 0.0, 6.0), p.gain(1));
        "mixer" [A A A] Close p => An(Mixer::<U3, U2>::new([[p.u(0), p.u(1), p.u(2)].into(), [p.u(3), p.u(4), p.u(5)].into()].into()));
        "dbell" [A F Q G] Close _p => dbell(Tanh(1.0));
        "dbell_hz" [A] Close p => dbell_hz(Softsign(1.0), p.hz(0), p.q(1), p.gain(2));
        "fbell" [A F Q G] Close _p => fbell(Atan(1.0));
        "fbell_hz" [A] Close p => fbell_hz(Tanh(0.7), p.hz(0), p.q(1), p.gain(2));
        "dhighpass" [A F Q] Close _p => dhighpass(Clip(1.0));
        "dhighpass_hz" [A] Close p => dhighpass_hz(Tanh(1.0), p.hz(0), p.q(1));
        "fhighpass" [A F Q] Close _p => fhighpass(Softsign(1.0));
        "fhighpass_hz" [A] Close p => fhighpass_hz(Softsign(1.0), p.hz(0), p.q(1));
        "dlowpass" [A F Q] Close _p => dlowpass(Tanh(1.0));
        "dlowpass_hz" [A] Close p => dlowpass_hz(Tanh(1.0), p.hz(0), p.q(1));
        "flowpass" [A F Q] Close _p => flowpass(Softsign(1.0));
        "flowpass_hz" [A] Close p => flowpass_hz(Softsign(1.0), p.hz(0), p.q(1));
        "dresonator" [A F Q] Close _p => dresonator(Tanh(1.0));
        "dresonator_hz" [A] Close p => dresonator_hz(Tanh(1.0), p.hz(0), p.q(1));
        "fresonator" [A F Q] Close _p => fresonator(Softsign(1.0));
        "fresonator_hz" [A] Close p => fresonator_hz(Softsign(1.0), p.hz(0), p.q(1));
        "flowpass_adaptive" [A F Q] Loose p => flowpass(Adaptive::new(p.lin(0, 0.001, 0.1), Tanh(1.0)));
        "poly_saw" [F] Loose _p => poly_saw();
        "poly_saw_hz" [] Loose p => poly_saw_hz(p.hz(0));
        "poly_square" [F] Loose _p => poly_square();
        "poly_pulse" [F U] Loose _p => poly_pulse();
        "poly_pulse_hz" [] Loose p => poly_pulse_hz(p.hz(0), p.u(1));
        "biquad_bank" [A A A A A A A A] Close p => {
            let mut b = biquad_bank();
            for i in 0..8 { b.set(Setting::biquad(p.lin(0, -0.9, 0.9) * (1.0 + p.lin(1, -0.5, 0.5)) * i as f32 / 8.0, p.lin(1, -0.5, 0.5), p.u(2), p.u(3), p.u(4)).index(i)); }
            b
        };
        "phase_synth" [U] Loose _p => An(PhaseSynth::new(triangle_table()));
        "highpass_q" [A F] Close p => highpass_q(p.q(0));
        "bandpass_q" [A F] Close p => bandpass_q(p.q(0));
        "notch_q" [A F] Close p => notch_q(p.q(0));
        "peak_q" [A F] Close p => peak_q(p.q(0));
        "allpass_q" [A F] Close p => allpass_q(p.q(0));
        "lowshelf_q" [A F] Close p => lowshelf_q(p.q(1), p.gain(2));
        "highshelf_q" [A F] Close p => highshelf_q(p.q(1), p.gain(2));
        "lowrez_q" [A L] Close p => lowrez_q(p.lin(1, 0.1, 0.9));
        "bandrez_q" [A L] Close p => bandrez_q(p.lin(1, 0.1, 0.9));
        "envelope2" [P] Loose p => { let f = p.lin(0, 1.0, 30.0); envelope2(move |t, x| (t * f).sin() * 0.5 + x) };
        "lfo3" [P U] Loose p => { let f = p.lin(0, 1.0, 30.0); lfo3(move |t, x, y| ((t * f).sin() * y + x, y)) };
        "envelope_in" [P P] Loose p => { let f = p.lin(0, 1.0, 30.0); envelope_in(move |t, i: &Frame<f32, U2>| i[0] * i[1] + (t * f).sin()) };
        "square_hz" [] Jumpy p => square_hz(p.hz(0));
        "organ_hz" [] Jumpy p => organ_hz(p.hz(0));
        "soft_saw_hz" [] Jumpy p => soft_saw_hz(p.hz(0));
        "hammond_hz" [] Jumpy p => hammond_hz(p.hz(0));
        "poly_square_hz" [] Loose p => poly_square_hz(p.hz(0));
        "thru1to2" [A] Close p => !(lowpole_hz(p.hz(0)) ^ mul(0.5));
        "thru" [A A A] Close p => thru(lowpole_hz(p.hz(0)) + pass() | sink());
        "pipei4" [A] Close p => pipei::<U4, _, _>(|i| lowpole_hz(p.hz(0) + 10.0 * i as f32));
        "pipei2" [A A] Close p => pipei::<U2, _, _>(|i| delay(0.001 * i as f32) | lowpole_hz(p.hz(0)));
        "pipei1" [A] Close p => pipei::<U1, _, _>(|_| lowpole_hz(p.hz(0)));
        "busi1" [A] Close p => busi::<U1, _, _>(|_| lowpole_hz(p.hz(0)));
        "sumi1" [A] Close p => sumi::<U1, _, _>(|_| lowpole_hz(p.hz(0)));
        "pipef" [A] Close p => pipef::<U3, _, _>(|f| lowpole_hz(p.hz(0) + 200.0 * f));
        "busf" [A] Close p => busf::<U2, _, _>(|f| lowpole_hz(p.hz(0) + 200.0 * f));
        "stackf" [A A] Close p => stackf::<U2, _, _>(|f| lowpole_hz(p.hz(0) + 200.0 * f));
        "branchf" [A] Close p => branchf::<U2, _, _>(|f| lowpole_hz(p.hz(0) + 200.0 * f));
        "sumf" [A A] Close p => sumf::<U2, _, _>(|f| lowpole_hz(p.hz(0) + 200.0 * f));
        "named" [A A] Close p => pipe(stack(lowpole_hz(p.hz(0)), pass()), product(mul(0.5), bus(tick(), lowpole_hz(p.hz(1)))));
        "named2" [A A A] Close p => sum(branch(lowpole_hz(p.hz(0)), pass()), tick() | mul(p.u(1)));
        "reverb4_delays" [A A] Close p => {
            let d: Vec<f32> = (0..32).map(|i| 0.003 + 0.0007 * i as f32 + 0.002 * p.u(1)).collect();
            reverb4_stereo_delays(&d, p.lin(0, 0.5, 5.0))
        };
        "sine_with_phase" [F] Loose p => An(Sine::<f32>::with_phase(p.u(0)));
        "ramp_with_phase" [F] Loose p => An(Ramp::<f64>::with_phase(p.u(0)));
        "poly_saw_with_phase" [F] Loose p => An(PolySaw::<f64>::with_phase(p.u(0)));
        "poly_square_with_phase" [F] Loose p => An(PolySquare::<f32>::with_phase(p.u(0)));
        "poly_pulse_with_phase" [F U] Loose p => An(PolyPulse::<f32>::with_phase(p.u(0)));
        "custom_synth" [H] Jumpy p => {
            let wave: Vec<f32> = (0..32).map(|i| (i as f32 * 0.196).sin() + p.u(0) * (i as f32 * 0.393).sin()).collect();
            An(WaveSynth::<U1>::new(Arc::new(Wavetable::from_wave(100.0, 5000.0, 1.0, &wave))))
        };
        "atomic_synth" [F] Loose p => {
            let wave: Vec<f32> = (0..64).map(|i| (i as f32 / 64.0 * 6.2831855).sin()).collect();
            let mut s = AtomicSynth::<f32>::new(Arc::new(AtomicTable::new(&wave)));
            s.set_interpolation(if p.int(1, 2) == 0 { Interpolation::Linear } else { Interpolation::Cubic });
            An(s)
        };
        "dummy" [A A] Exact _p => fundsp::audiounit::DummyUnit::new(2, 2);
    };
    v.push(Atom {
        name: "granular",
        ins: &[],
        tol: Tol::Loose,
        // Voices draw from one generator in the order of calls. Marked as work in progress.
        blockwise: true,
        make: |p| {
            bx(Granular::new(1, 1 + p.int(0, 3), 0.02, 3, p.0[1] as u64, 0.1, 0.2, 0.01, |_t, _b, v, x, _y, _z| {
                (0.006, 0.002, Box::new(sine_hz(500.0 + 300.0 * x) * (0.2 + 0.1 * v)) as Box<dyn AudioUnit>)
            }))
        },
    });
    v.push(Atom {
        name: "update",
        ins: &[A],
        tol: Tol::Close,
        blockwise: true,
        make: |p| {
            let f = p.hz(0);
            bx(update(lowpole_hz(1000.0), 0.003, move |t, _dt, x: &mut Lowpole<f32, U1>| {
                x.set_cutoff(f * (1.0 + 0.5 * (t * 20.0).sin()))
            }))
        },
    });
    v
}

thread_local! {
    static ATOMS: &'static [Atom] = {
        let _q = Quiet::new();
        Box::leak(atoms().into_boxed_slice())
    };
}

pub fn catalogue() -> &'static [Atom] {
    ATOMS.with(|a| *a)
}

/// A description of a unit.
#[derive(Clone)]
pub enum Spec {
    Atom(usize, Par),
    Comp(usize, Par, Vec<Spec>),
}

/// Compositions: name, number of children, inputs, outputs.
const COMPS: &[(&str, usize, usize)] = &[
    ("filter>>filter", 2, 1),
    ("gen>>filter", 2, 0),
    ("gen*gen", 2, 0),
    ("gen+gen", 2, 0),
    ("gen-gen", 2, 0),
    ("filter|filter", 2, 2),
    ("filter^filter", 2, 1),
    ("filter&filter", 2, 1),
    ("!(filter)", 1, 2),
    ("-filter*k+k", 1, 2),
    ("feedback", 1, 1),
    ("feedback2", 2, 1),
    ("fdn", 2, 2),
    ("oversample", 1, 1),
    ("resample", 1, 0),
    ("busi", 1, 1),
    ("stacki", 1, 3),
    ("branchi", 1, 1),
    ("sumi", 1, 0),
    ("pipei", 1, 1),
    ("allnest", 1, 1),
    ("net >>", 2, 1),
    ("net |", 2, 2),
    ("net ^", 2, 1),
    ("net &", 2, 1),
    ("net * +", 2, 0),
    ("net !", 1, 2),
    ("net feedback loop", 1, 1),
    ("FeedbackUnit", 1, 1),
    ("BlockRateAdapter", 1, 0),
    ("BigBlockAdapter", 1, 1),
    ("Sequencer", 2, 0),
    ("Slot", 1, 1),
    ("wrap", 1, 1),
    ("filter+filter", 2, 2),
    ("k*filter", 1, 1),
    ("net wrap_id chain", 2, 1),
    ("update", 1, 1),
];

/// A time close to `t` that is not halfway between samples, at any of the sample rates in use.
fn off_tie(t: f32) -> f64 {
    let mut t = t as f64;
    while [22050.0, 44100.0, 48000.0, 96000.0].iter().any(|r| ((t * r).fract() - 0.5).abs() < 0.01) {
        t += 3.0e-7;
    }
    t
}

fn un11(s: &Spec) -> An<Unit<U1, U1>> {
    unit::<U1, U1>(s.filter())
}
fn un01(s: &Spec) -> An<Unit<U0, U1>> {
    unit::<U0, U1>(s.generator())
}

impl Spec {
    /// Draw a unit. `depth` bounds the nesting of compositions.
    pub fn draw(depth: usize) -> Spec {
        if depth == 0 || choose(3) < 2 {
            let n = catalogue().len();
            Spec::Atom(choose(n as u64) as usize, Par::draw())
        } else {
            let k = choose(COMPS.len() as u64) as usize;
            let p = Par::draw();
            let children = (0..COMPS[k].1).map(|_| Spec::draw(depth - 1)).collect();
            Spec::Comp(k, p, children)
        }
    }

    pub fn name(&self) -> String {
        match self {
            Spec::Atom(a, p) => format!("{}{:?}", catalogue()[*a].name, p.0),
            Spec::Comp(k, p, c) => {
                let c: Vec<String> = c.iter().map(|c| c.name()).collect();
                format!("{}{:?}({})", COMPS[*k].0, &p.0[..2], c.join(", "))
            }
        }
    }

    pub fn short(&self) -> String {
        match self {
            Spec::Atom(a, _) => catalogue()[*a].name.to_string(),
            Spec::Comp(k, _, c) => {
                let c: Vec<String> = c.iter().map(|c| c.short()).collect();
                format!("{}({})", COMPS[*k].0, c.join(","))
            }
        }
    }

    pub fn is_atom(&self) -> bool {
        matches!(self, Spec::Atom(..))
    }

    pub fn ins(&self) -> Vec<In> {
        match self {
            Spec::Atom(a, _) => catalogue()[*a].ins.to_vec(),
            Spec::Comp(k, _, _) => {
                if COMPS[*k].0 == "resample" {
                    vec![V]
                } else {
                    vec![A; COMPS[*k].2]
                }
            }
        }
    }

    pub fn any(&self, f: &dyn Fn(&Atom) -> bool) -> bool {
        match self {
            Spec::Atom(a, _) => f(&catalogue()[*a]),
            Spec::Comp(_, _, c) => c.iter().any(|c| c.any(f)),
        }
    }

    pub fn has(&self, name: &str) -> bool {
        self.any(&|a| a.name == name)
    }

    pub fn has_comp(&self, name: &str) -> bool {
        match self {
            Spec::Atom(..) => false,
            Spec::Comp(k, _, c) => COMPS[*k].0 == name || c.iter().any(|c| c.has_comp(name)),
        }
    }

    pub fn blockwise(&self) -> bool {
        self.any(&|a| a.blockwise) || self.has_comp("update")
    }

    pub fn tol(&self) -> Tol {
        if self.any(&|a| a.tol == Tol::Jumpy) {
            Tol::Jumpy
        } else if self.any(&|a| a.tol == Tol::Loose) {
            Tol::Loose
        } else if self.any(&|a| a.tol == Tol::Close) || !self.is_atom() {
            Tol::Close
        } else {
            Tol::Exact
        }
    }

    /// Whether rounding differences of one part may meet a staircase in another, or a nonlinear
    /// system that amplifies them without limit.
    pub fn steep(&self) -> bool {
        const CHAOS: &[&str] = &[
            "moog", "lowrez", "bandrez", "rossler", "lorenz", "dbell", "fbell", "dhighpass", "fhighpass", "dlowpass", "flowpass",
            "dresonator", "fresonator",
        ];
        let chaotic = |a: &Atom| CHAOS.iter().any(|c| a.name.starts_with(c));
        if !self.is_atom() && self.any(&chaotic) && self.any(&|a| a.tol != Tol::Exact && !chaotic(a)) {
            return true;
        }
        (self.has("shape_crush") || self.has("shape_softcrush"))
            && self.any(&|a| a.name != "shape_softcrush" && (a.tol == Tol::Loose || a.tol == Tol::Jumpy || a.name == "join" || a.name == "multijoin"))
    }

    fn par(&self) -> &Par {
        match self {
            Spec::Atom(_, p) | Spec::Comp(_, p, _) => p,
        }
    }

    /// A version of this unit with one input and one output.
    pub fn filter(&self) -> Unit0 {
        let ins = self.ins();
        let unit = self.build();
        if ins.len() == 1 && ins[0] == A && unit.outputs() == 1 {
            return unit;
        }
        let p = self.par();
        let audio = ins.iter().position(|i| *i == A);
        let mut net = Net::new(1, 1);
        let id = net.push(unit);
        for (port, kind) in ins.iter().enumerate() {
            if Some(port) == audio {
                net.connect_input(0, id, port);
            } else {
                let c = net.push(bx(dc(level(*kind, p.u(port % 6)))));
                net.connect(c, 0, id, port);
            }
        }
        if audio.is_some() {
            net.connect_output(id, 0, 0);
        } else {
            let m = net.push(bx(pass() * pass()));
            net.connect_input(0, m, 0);
            net.connect(id, 0, m, 1);
            net.connect_output(m, 0, 0);
        }
        bx(net)
    }

    /// A version of this unit with no inputs and one output.
    pub fn generator(&self) -> Unit0 {
        let ins = self.ins();
        let unit = self.build();
        if ins.is_empty() && unit.outputs() == 1 {
            return unit;
        }
        let p = self.par();
        let mut net = Net::new(0, 1);
        let id = net.push(unit);
        for (port, kind) in ins.iter().enumerate() {
            let c = if *kind == A {
                net.push(bx(noise().seed(p.0[port % 6] as u64)))
            } else {
                net.push(bx(dc(level(*kind, p.u(port % 6)))))
            };
            net.connect(c, 0, id, port);
        }
        net.connect_output(id, 0, 0);
        bx(net)
    }

    pub fn build(&self) -> Unit0 {
        match self {
            Spec::Atom(a, p) => (catalogue()[*a].make)(p),
            Spec::Comp(k, p, c) => {
                let g = p.lin(0, -0.7, 0.7);
                match COMPS[*k].0 {
                    "filter>>filter" => bx(un11(&c[0]) >> un11(&c[1])),
                    "gen>>filter" => bx(un01(&c[0]) >> un11(&c[1])),
                    "gen*gen" => bx(un01(&c[0]) * un01(&c[1])),
                    "gen+gen" => bx(un01(&c[0]) + un01(&c[1])),
                    "gen-gen" => bx(un01(&c[0]) - un01(&c[1])),
                    "filter|filter" => bx(un11(&c[0]) | un11(&c[1])),
                    "filter^filter" => bx(un11(&c[0]) ^ un11(&c[1])),
                    "filter&filter" => bx(un11(&c[0]) & un11(&c[1])),
                    "filter+filter" => bx(un11(&c[0]) + un11(&c[1])),
                    "!(filter)" => bx(!(un11(&c[0]) | sink()) >> (pass() | pass())),
                    "-filter*k+k" => bx(-un11(&c[0]) * g + 0.25 - (un11(&c[0]) - 0.5)),
                    "k*filter" => bx(g * un11(&c[0])),
                    "feedback" => bx(feedback(un11(&c[0]) * 0.3 >> clip())),
                    "feedback2" => bx(feedback2(un11(&c[0]) >> clip(), un11(&c[1]) * 0.3)),
                    "fdn" => bx(fdn::<U2, _>((un11(&c[0]) | un11(&c[1])) * 0.3 >> (clip() | clip()))),
                    "oversample" => bx(oversample(un11(&c[0]))),
                    "resample" => bx(resample(un01(&c[0]))),
                    "busi" => bx(busi::<U3, _, _>(|_| un11(&c[0]))),
                    "stacki" => bx(stacki::<U3, _, _>(|_| un11(&c[0]))),
                    "branchi" => bx(branchi::<U3, _, _>(|_| un11(&c[0]))),
                    "sumi" => bx(sumi::<U3, _, _>(|_| un01(&c[0]))),
                    "pipei" => bx(pipei::<U3, _, _>(|_| un11(&c[0]) * 0.5 >> clip())),
                    "allnest" => bx(allnest_c(g * 0.7, un11(&c[0]) * 0.5 >> clip())),
                    "net >>" => bx(Net::wrap(c[0].filter()) >> Net::wrap(c[1].filter())),
                    "net |" => bx(Net::wrap(c[0].filter()) | Net::wrap(c[1].filter())),
                    "net ^" => bx(Net::wrap(c[0].filter()) ^ Net::wrap(c[1].filter())),
                    "net &" => bx(Net::wrap(c[0].filter()) & Net::wrap(c[1].filter())),
                    "net * +" => {
                        bx(Net::wrap(c[0].generator()) * Net::wrap(c[1].generator()) * g + 0.5 - Net::wrap(c[0].generator()))
                    }
                    "net !" => bx(!(Net::wrap(c[0].filter()) | Net::wrap(bx(sink())))),
                    "net feedback loop" => {
                        let mut net = Net::new(1, 1);
                        let add = net.push(bx(pass() + pass()));
                        let f = net.push(bx(un11(&c[0]) * 0.3 >> clip()));
                        let t = net.push(bx(delay(p.lin(1, 0.0, 0.003))));
                        net.connect_input(0, add, 0);
                        net.connect(add, 0, f, 0);
                        net.connect(f, 0, t, 0);
                        // A cycle through `t` would be reported as an error, so loop by hand.
                        net.connect(t, 0, add, 1);
                        net.disconnect(add, 1);
                        net.connect_output(t, 0, 0);
                        bx(net)
                    }
                    "FeedbackUnit" => {
                        bx(FeedbackUnit::new(p.lin(1, 0.0, 0.01) as f64, bx(un11(&c[0]) * 0.3 >> clip())))
                    }
                    "BlockRateAdapter" => bx(BlockRateAdapter::new(c[0].generator())),
                    "BigBlockAdapter" => bx(BigBlockAdapter::new(c[0].filter())),
                    "Sequencer" => {
                        let mut s = Sequencer::new(true, 1);
                        let a = s.push(off_tie(p.lin(1, 0.0, 0.004)), off_tie(p.lin(2, 0.008, 0.02)), Fade::Smooth, 0.001, 0.002, c[0].generator());
                        let b = s.push(off_tie(p.lin(3, 0.0, 0.004)), f64::INFINITY, Fade::Power, 0.001, 0.002, c[1].generator());
                        // Edits that wait for the events to begin.
                        match p.0[4] as u64 % 4 {
                            0 | 1 => (),
                            2 => s.edit(b, off_tie(p.lin(5, 0.005, 0.02)), 0.0005),
                            _ => {
                                s.edit_relative(b, off_tie(p.lin(5, 0.005, 0.02)), 0.001);
                                s.edit(a, off_tie(p.lin(0, 0.005, 0.008)), 0.001);
                            }
                        }
                        bx(s)
                    }
                    "Slot" => bx(Slot::new(c[0].filter()).1),
                    "wrap" => bx(Net::wrap(c[0].filter())),
                    "net wrap_id chain" => {
                        let (mut net, _id) = Net::wrap_id(c[0].filter());
                        net.chain(c[1].filter());
                        bx(net)
                    }
                    "update" => bx(update(un11(&c[0]), 0.002, |_t, _dt, _x: &mut Unit<U1, U1>| {})),
                    other => unreachable!("{other}"),
                }
            }
        }
    }
}

/// A constant level for an input of the given kind.
pub fn level(kind: In, u: f32) -> f32 {
    match kind {
        A => u * 2.0 - 1.0,
        F | H => 20.0 * (500.0f32).powf(u),
        L => 20.0 * (20.0f32).powf(u),
        Q => 0.3 * (20.0f32).powf(u),
        G => 0.25 * (16.0f32).powf(u),
        P => u * 1.8 - 0.9,
        U => 0.05 + 0.9 * u,
        D => 0.0005 + 0.0035 * u,
        S => 0.1 + 3.9 * u,
        V => 0.5 + 1.5 * u,
        K => {
            if u < 0.5 {
                0.0
            } else {
                1.0
            }
        }
    }
}

/// An input signal: a pure function of the sample number.
#[derive(Clone)]
pub struct Sig {
    kind: In,
    seed: u64,
    mode: u64,
    period: u64,
}

fn rnd(seed: u64, n: u64) -> f32 {
    (mix(seed, n) >> 40) as f32 / (1u64 << 24) as f32
}

impl Sig {
    pub fn draw(kind: In) -> Sig {
        Sig { kind, seed: choose(1 << 20), mode: choose(4), period: 1 + choose(300) }
    }
    pub fn at(&self, n: u64) -> f32 {
        if self.kind == A {
            match self.mode {
                0 => rnd(self.seed, n) * 2.0 - 1.0,
                1 => (n as f32 * 0.001 * (1 + self.seed % 500) as f32).sin() * 0.8,
                2 => {
                    if n % self.period == 0 {
                        1.0
                    } else {
                        0.0
                    }
                }
                _ => {
                    // Bursts and silence.
                    if (n / self.period) % 2 == 0 {
                        rnd(self.seed, n) * 2.0 - 1.0
                    } else {
                        0.0
                    }
                }
            }
        } else {
            let u = match self.mode {
                _ if self.kind == H => rnd(self.seed, 0),
                0 => rnd(self.seed, 0),
                // Steps.
                1 | 2 => rnd(self.seed, n / self.period),
                // A slow sweep.
                _ => 0.5 + 0.45 * (n as f32 * 0.0001 * (1 + self.seed % 100) as f32).sin(),
            };
            level(self.kind, u)
        }
    }
}
