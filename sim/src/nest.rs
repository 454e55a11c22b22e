//! Live structures inside live structures: the backend of one plays as a unit of another, whose
//! control side is busy with other things.

use crate::core::*;
use crate::probe::*;
use crate::runner::Prop;
use crate::{net, ports, seq};
use fundsp::prelude::*;
use fundsp::slot::Slot;
use std::cell::RefCell;
use std::rc::Rc;

enum Layer {
    Net { net: Net, inner: NodeId, others: Vec<(NodeId, usize, usize)>, pass: Option<NodeId>, ins: usize, outs: usize, next: u64 },
    Seq { seq: Sequencer, known: Vec<EventId>, outs: usize },
    #[allow(dead_code)]
    Slot(Slot),
    Static,
}

/// The control sides of the structures around a backend.
pub struct Host {
    layers: Vec<Layer>,
    ops: usize,
    /// How long the unit may be faded in.
    pub blind: u64,
}

pub fn nested() -> bool {
    with(|c| c.nest > 0)
}

/// Whether the structures around the backend allow it to be reset.
pub fn resets() -> bool {
    with(|c| c.nest == 0 || c.nest == 3)
}

fn quiet(ins: usize, outs: usize) -> Box<dyn AudioUnit> {
    Box::new(Net::new(ins, outs))
}

fn play(unit: &mut dyn AudioUnit) {
    for _ in 0..range(0, 3) {
        let ticks = chance(1, 3);
        let size = if ticks { 1 } else { range(1, 64) };
        let input: Vec<Vec<f32>> = (0..unit.inputs()).map(|_| vec![0.5; size]).collect();
        render(unit, size, ticks, &input);
    }
}

/// Put the unit inside other structures, if this run has them.
pub fn enter(mut unit: Box<dyn AudioUnit>, fades: bool) -> (Box<dyn AudioUnit>, Option<Host>) {
    if !nested() {
        return (unit, None);
    }
    let fades = fades && !resets();
    let mut layers = vec![];
    let mut blind = 0;
    for _ in 0..range(1, 3) {
        let (u, layer) = wrap(unit, fades, &mut blind);
        unit = u;
        layers.push(layer);
    }
    (unit, Some(Host { layers, ops: range(1, 16), blind }))
}

fn wrap(unit: Box<dyn AudioUnit>, fades: bool, blind: &mut u64) -> (Box<dyn AudioUnit>, Layer) {
    let (ins, outs) = (unit.inputs(), unit.outputs());
    let seq = ins == 0 && with(|c| c.nest) == 2;
    let mut fade = || -> f64 {
        let n = range(0, 150) as u64;
        *blind = std::cmp::max(*blind, n + 2);
        n as f64 / 44100.0
    };
    match weighted(&[5, if seq { 4 } else { 0 }, 2, 2]) {
        0 => {
            let mut net = Net::new(ins, outs);
            let mut others = vec![];
            let mut next = 1_000_000;
            if chance(1, 2) {
                for _ in 0..range(1, 3) {
                    others.push((net.push(Probe::boxed(next, 0, 1)), 0, 1));
                    next += 1;
                }
            }
            let link = |net: &mut Net, id: NodeId| {
                if ins > 0 {
                    net.pipe_input(id);
                }
                net.pipe_output(id);
            };
            let (backend, inner) = match choose(if fades { 7 } else { 4 }) {
                0 => {
                    trace!("nest: in a net from the start");
                    let id = net.push(unit);
                    link(&mut net, id);
                    (net.backend(), id)
                }
                1 => {
                    trace!("nest: in a net by replacing");
                    let id = net.push(quiet(ins, outs));
                    link(&mut net, id);
                    let mut backend = net.backend();
                    if chance(1, 2) {
                        net.commit();
                    }
                    play(&mut backend);
                    net.replace(id, unit);
                    net.commit();
                    (backend, id)
                }
                2 => {
                    trace!("nest: in a net that has a backend");
                    let mut backend = net.backend();
                    play(&mut backend);
                    let id = net.push(unit);
                    if chance(1, 2) {
                        net.commit();
                    }
                    link(&mut net, id);
                    net.commit();
                    (backend, id)
                }
                4 => {
                    trace!("nest: in a net by a crossfade");
                    let id = net.push(quiet(ins, outs));
                    link(&mut net, id);
                    let mut backend = net.backend();
                    play(&mut backend);
                    net.crossfade(id, Fade::Smooth, fade() as f32, unit);
                    net.commit();
                    (backend, id)
                }
                5 => {
                    trace!("nest: faded in to a net");
                    let mut backend = net.backend();
                    play(&mut backend);
                    let id = net.fade_in(Fade::Power, fade() as f32, unit);
                    link(&mut net, id);
                    net.commit();
                    (backend, id)
                }
                6 => {
                    trace!("nest: faded in to a net that gets a backend then");
                    let id = net.fade_in(Fade::Smooth, fade() as f32, unit);
                    link(&mut net, id);
                    (net.backend(), id)
                }
                _ => {
                    trace!("nest: in a net by an operator");
                    let mut net = if ins > 0 && chance(1, 2) {
                        Net::wrap(unit)
                    } else {
                        let through = {
                            let mut n = Net::new(outs, outs);
                            let ids: Vec<NodeId> = (0..outs).map(|_| n.push(Box::new(pass()))).collect();
                            for (c, id) in ids.iter().enumerate() {
                                n.connect_input(c, *id, 0);
                                n.connect_output(*id, 0, c);
                            }
                            n
                        };
                        Net::wrap(unit) >> through
                    };
                    let ids: Vec<NodeId> = net.ids().copied().collect();
                    let inner = ids.into_iter().find(|id| net.inputs_in(*id) == ins && net.outputs_in(*id) == outs).unwrap();
                    let backend = net.backend();
                    // The outputs are not touched from here on.
                    return (Box::new(backend), Layer::Net { net, inner, others: vec![], pass: None, ins, outs: 0, next });
                }
            };
            count("nested in a net");
            let mut backend = backend;
            if resets() {
                // A reset concerns the units that have arrived.
                let input: Vec<Vec<f32>> = (0..ins).map(|_| vec![]).collect();
                render(&mut backend, 0, false, &input);
            }
            (Box::new(backend), Layer::Net { net, inner, others, pass: None, ins, outs, next })
        }
        1 => {
            count("nested in a sequencer");
            let mut seq = Sequencer::new(false, outs);
            let mut known = vec![];
            if chance(1, 2) {
                trace!("nest: an event from the start");
                seq.push(0.0, f64::INFINITY, Fade::Smooth, 0.0, 0.0, unit);
                (Box::new(seq.backend()), Layer::Seq { seq, known, outs })
            } else {
                trace!("nest: an event in a sequencer that has a backend");
                if chance(1, 2) {
                    known.push(seq.push(0.0, f64::INFINITY, Fade::Smooth, 0.0, 0.0, quiet(0, outs)));
                }
                let mut backend = seq.backend();
                play(&mut backend);
                let time = if fades { fade() } else { 0.0 };
                seq.push_relative(0.0, f64::INFINITY, Fade::Smooth, time, 0.0, unit);
                (Box::new(backend), Layer::Seq { seq, known, outs })
            }
        }
        2 => {
            count("nested in a slot");
            trace!("nest: in a slot");
            if fades && chance(1, 2) {
                let (mut slot, mut backend) = Slot::new(quiet(ins, outs));
                play(&mut backend);
                slot.set(Fade::Smooth, fade(), unit);
                (Box::new(backend), Layer::Slot(slot))
            } else {
                let (slot, backend) = Slot::new(unit);
                (Box::new(backend), Layer::Slot(slot))
            }
        }
        _ => {
            count("nested in a static unit");
            trace!("nest: in a static unit");
            let u: Box<dyn AudioUnit> = match (ins, outs) {
                (0, 1) => Box::new(fundsp::prelude::unit::<U0, U1>(unit) >> pass()),
                (1, 1) => Box::new(pass() >> fundsp::prelude::unit::<U1, U1>(unit)),
                (0, 2) => Box::new(fundsp::prelude::unit::<U0, U2>(unit) >> multipass::<U2>()),
                (2, 1) => Box::new(multipass::<U2>() >> fundsp::prelude::unit::<U2, U1>(unit)),
                (1, 2) => Box::new(fundsp::prelude::unit::<U1, U2>(unit) >> multipass::<U2>()),
                (2, 2) => Box::new(fundsp::prelude::unit::<U2, U2>(unit) >> multipass::<U2>()),
                _ => unit,
            };
            (u, Layer::Static)
        }
    }
}

impl Host {
    /// Start the thread of the control sides. They go away with the result at the latest.
    pub fn spawn(host: Option<Host>, sched: &mut Sched) -> Rc<RefCell<Option<Host>>> {
        let keep = Rc::new(RefCell::new(None));
        if let Some(mut host) = host {
            let keep = keep.clone();
            sched.spawn("host", move || {
                for _ in 0..host.ops {
                    host.step();
                    yield_now();
                }
                if chance(1, 2) {
                    trace!("host dropped");
                    count("fault: the control side around a backend went away");
                } else {
                    *keep.borrow_mut() = Some(host);
                }
            });
        }
        keep
    }

    /// Something that does not concern the backend inside.
    fn step(&mut self) {
        let n = self.layers.len() as u64;
        let which = choose(n) as usize;
        match &mut self.layers[which] {
            Layer::Net { net, inner, others, pass, ins, outs, next } => match choose(8) {
                0 | 1 => {
                    trace!("host {which}: commit");
                    net.commit();
                }
                2 => {
                    trace!("host {which}: push");
                    let i = range(0, 1);
                    let id = net.push(Probe::boxed(*next, i, 1));
                    *next += 1;
                    others.push((id, i, 1));
                }
                3 => {
                    // Listen to the unit inside, or to another one.
                    if let Some((id, _, _)) = others.iter().find(|o| o.1 > 0) {
                        if *outs > 0 && chance(1, 2) {
                            trace!("host {which}: connect from the unit inside");
                            net.connect(*inner, 0, *id, 0);
                        } else {
                            trace!("host {which}: disconnect");
                            net.disconnect(*id, 0);
                        }
                    }
                }
                4 => {
                    if !others.is_empty() {
                        let k = range(0, others.len() - 1);
                        let (id, _, _) = others.swap_remove(k);
                        trace!("host {which}: remove");
                        net.remove(id);
                    }
                }
                5 => {
                    if !others.is_empty() {
                        let k = range(0, others.len() - 1);
                        let (id, i, o) = others[k];
                        let unit = Probe::boxed(*next, i, o);
                        *next += 1;
                        if chance(1, 2) {
                            trace!("host {which}: replace");
                            net.replace(id, unit);
                        } else {
                            trace!("host {which}: crossfade");
                            net.crossfade(id, Fade::Smooth, pick(&[0.001, 0.0, 0.01]), unit);
                        }
                    }
                }
                6 => {
                    // Put a connection in between the unit inside and the output, or take it away.
                    if *outs > 0 {
                        match pass.take() {
                            None => {
                                trace!("host {which}: insert");
                                let id = net.push(Box::new(fundsp::prelude::pass()));
                                net.connect(*inner, 0, id, 0);
                                net.connect_output(id, 0, 0);
                                *pass = Some(id);
                            }
                            Some(id) => {
                                trace!("host {which}: take away");
                                if chance(1, 2) {
                                    net.connect_output(*inner, 0, 0);
                                    net.remove(id);
                                } else {
                                    net.remove_link(id);
                                }
                            }
                        }
                    }
                }
                _ => {
                    let _ = ins;
                    if let Some((id, _, _)) = others.first() {
                        trace!("host {which}: setting");
                        net.set(Setting::value(0.5).node(*id));
                    }
                }
            },
            Layer::Seq { seq, known, outs } => match choose(3) {
                0 => {
                    trace!("host {which}: push");
                    known.push(seq.push_relative(range(0, 100) as f64 / 44100.0, f64::INFINITY, Fade::Smooth, 0.0, 0.0, quiet(0, *outs)));
                }
                1 => {
                    if !known.is_empty() {
                        let k = range(0, known.len() - 1);
                        trace!("host {which}: end");
                        seq.edit_relative(known.swap_remove(k), range(0, 100) as f64 / 44100.0, 0.0);
                    }
                }
                _ => {
                    trace!("host {which}: push an event that ends");
                    let t = range(0, 100) as f64 / 44100.0;
                    seq.push_relative(t, t + range(1, 100) as f64 / 44100.0, Fade::Smooth, 0.0, 0.0, quiet(0, *outs));
                }
            },
            Layer::Slot(_) | Layer::Static => (),
        }
    }
}

fn c24() {
    // In which structures the backend may be; events of a sequencer are not reset.
    let kind = 1 + choose(3);
    with(|c| c.nest = kind as u8);
    match choose(9) {
        0..=2 => net::live(
            net::Cfg {
                fades: chance(1, 3) && kind != 3,
                settings: chance(1, 2),
                back_resets: kind == 3,
                class: "C24/net",
                ..net::Cfg::default()
            },
            false,
            false,
        ),
        3 | 4 => seq::live(seq::Cfg { rates: false, resets: kind == 3, fades: chance(1, 2), class: "C24/sequencer" }, false, false),
        5 | 6 => ports::slot(ports::SlotCfg { class: "C24/slot", rt: false, conserve: false }),
        7 => match choose(2) {
            0 => ports::snoop("C24/snoop", false),
            _ => ports::ring("C24/ring", false),
        },
        _ => ports::listener("C24/listener", false),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        title: "Live structures nest",
        run: c24,
        fresh: false,
        rule: "the workloads of C01 and C06 to C10 with the backend as a unit of one to three further live structures, whose control side is busy in a third thread; non-trivial: as there",
        real: "Net, Sequencer, Slot, Snoop, Ring, SettingListener and their backends, inside each other, thingbuf channels (all real, hooks on)",
        stub: "threads (coroutines on one thread under the seeded scheduler), audio callback, contained units (probes)",
        quick_s: 40.0,
        thorough_s: 600.0,
    }]
}
