//! `Net`: a frontend thread edits a graph while the audio thread renders it.

use crate::core::*;
use crate::oracle::*;
use crate::probe::*;
use crate::runner::Prop;
use fundsp::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------
// Reference model.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Src {
    Zero,
    Global(usize),
    Local(u64, usize),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Probe(State),
    Add,
    Sub,
    Mul,
    Const(f32),
    Pass,
    Dummy,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Unit {
    pub kind: Kind,
    pub ins: usize,
    pub outs: usize,
}

impl Unit {
    fn set(&mut self, v: f32) {
        if let Kind::Probe(s) = &mut self.kind {
            s.set(v);
        }
    }
    fn reset(&mut self) {
        if let Kind::Probe(s) = &mut self.kind {
            s.n = 0;
        }
    }
    fn set_sr(&mut self, sr: f32) {
        if let Kind::Probe(s) = &mut self.kind {
            s.sr = sr;
        }
    }
    /// Produce one frame of (value, tolerance).
    fn tick(&mut self, input: &[(f32, f32)], out: &mut Vec<(f32, f32)>) {
        out.clear();
        match &mut self.kind {
            Kind::Probe(s) => {
                let mut frame = [0.0f32; 16];
                for (i, v) in input.iter().enumerate() {
                    frame[i] = v.0;
                }
                for c in 0..self.outs {
                    let x = s.value(c, &frame[..self.ins]);
                    let mut tol = 0.0;
                    for (i, v) in input.iter().enumerate() {
                        tol += v.1 * s.weight(c, i).abs();
                    }
                    out.push((x, tol));
                }
                s.n += 1;
            }
            Kind::Add => out.push((input[0].0 + input[1].0, input[0].1 + input[1].1)),
            Kind::Sub => out.push((input[0].0 - input[1].0, input[0].1 + input[1].1)),
            Kind::Mul => out.push((
                input[0].0 * input[1].0,
                input[0].1 * input[1].0.abs() + input[1].1 * input[0].0.abs() + input[0].1 * input[1].1,
            )),
            Kind::Const(v) => {
                for _ in 0..self.outs {
                    out.push((*v, 0.0));
                }
            }
            Kind::Pass => out.extend_from_slice(input),
            Kind::Dummy => {
                for _ in 0..self.outs {
                    out.push((0.0, 0.0));
                }
            }
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Fading {
    pub unit: Unit,
    pub smooth: bool,
    pub time: f32,
    /// Seconds of the fade rendered so far.
    pub t: f64,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    pub unit: Unit,
    pub next: Option<Fading>,
    pub latest: Option<Fading>,
    pub src: Vec<Src>,
    pub changed: u64,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Model {
    pub nodes: BTreeMap<u64, Node>,
    pub outs: Vec<Src>,
    pub ins: usize,
    pub sr: f32,
    pub rev: u64,
    pub edits: Vec<(u64, Fading)>,
}

/// Binary graph operators.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Pipe,
    Branch,
    Stack,
    Bus,
    Add,
    Sub,
    Mul,
}

fn real_op(op: Op, x: Net, y: Net) -> Net {
    match op {
        Op::Pipe => x >> y,
        Op::Branch => x ^ y,
        Op::Stack => x | y,
        Op::Bus => x & y,
        Op::Add => x + y,
        Op::Sub => x - y,
        Op::Mul => x * y,
    }
}

/// The same with a static graph on one side.
fn real_op_an<X: AudioNode + Sync + Send + 'static>(op: Op, x: Net, y: An<X>, flip: bool) -> Net {
    match (op, flip) {
        (Op::Pipe, false) => x >> y,
        (Op::Branch, false) => x ^ y,
        (Op::Stack, false) => x | y,
        (Op::Bus, false) => x & y,
        (Op::Add, false) => x + y,
        (Op::Sub, false) => x - y,
        (Op::Mul, false) => x * y,
        (Op::Pipe, true) => y >> x,
        (Op::Branch, true) => y ^ x,
        (Op::Stack, true) => y | x,
        (Op::Bus, true) => y & x,
        (Op::Add, true) => y + x,
        (Op::Sub, true) => y - x,
        (Op::Mul, true) => y * x,
    }
}

#[derive(Clone, Debug)]
pub enum Msg {
    Commit(Model),
    Setting(u64, f32),
}

impl Model {
    pub fn new(ins: usize, outs: usize) -> Self {
        Model {
            nodes: BTreeMap::new(),
            outs: vec![Src::Zero; outs],
            ins,
            sr: DEFAULT_SR as f32,
            rev: 0,
            edits: vec![],
        }
    }

    fn enqueue(&mut self, key: u64, edit: Fading) {
        if let Some(node) = self.nodes.get_mut(&key) {
            if node.next.is_some() {
                node.latest = Some(edit);
            } else {
                node.next = Some(edit);
            }
        }
    }

    /// What the backend does with a message.
    pub fn apply(&mut self, m: &Msg) {
        match m {
            Msg::Commit(new) => {
                let mut net = new.clone();
                let edits = std::mem::take(&mut net.edits);
                for (key, node) in net.nodes.iter_mut() {
                    if let Some(old) = self.nodes.get(key) {
                        // A node that was not touched keeps running as it is.
                        if node.changed <= self.rev {
                            node.unit = old.unit.clone();
                            node.next = old.next.clone();
                            node.latest = old.latest.clone();
                        }
                    }
                }
                for (key, edit) in edits {
                    net.enqueue(key, edit);
                }
                *self = net;
            }
            Msg::Setting(key, v) => self.setting(*key, *v),
        }
    }

    fn setting(&mut self, key: u64, v: f32) {
        if let Some(node) = self.nodes.get_mut(&key) {
            node.unit.set(v);
            if let Some(next) = &mut node.next {
                next.unit.set(v);
            }
            if let Some(latest) = &mut node.latest {
                latest.unit.set(v);
            }
        }
    }

    /// Every unit starts over. Fades go on.
    pub fn reset(&mut self) {
        for n in self.nodes.values_mut() {
            n.unit.reset();
            if let Some(f) = &mut n.next {
                f.unit.reset();
            }
            if let Some(f) = &mut n.latest {
                f.unit.reset();
            }
        }
    }

    pub fn set_sr(&mut self, sr: f32) {
        if sr == self.sr {
            return;
        }
        self.sr = sr;
        for n in self.nodes.values_mut() {
            n.unit.set_sr(sr);
            if let Some(f) = &mut n.next {
                f.unit.set_sr(sr);
            }
            if let Some(f) = &mut n.latest {
                f.unit.set_sr(sr);
            }
            n.changed = self.rev;
        }
        for (_, f) in self.edits.iter_mut() {
            f.unit.set_sr(sr);
        }
    }

    /// The graph `a op b`. At most one of them has a backend.
    pub fn combine(op: Op, mut a: Model, mut b: Model, a_back: bool, b_back: bool, synthetic: &mut u64) -> Model {
        if b_back || (!a_back && a.sr == DEFAULT_SR as f32) {
            a.set_sr(b.sr);
        } else {
            b.set_sr(a.sr);
        }
        let shift = |s: &mut Src| {
            if let Src::Global(g) = *s {
                *s = match op {
                    Op::Pipe => a.outs[g],
                    Op::Branch | Op::Bus => Src::Global(g),
                    _ => Src::Global(g + a.ins),
                };
            }
        };
        for n in b.nodes.values_mut() {
            n.src.iter_mut().for_each(shift);
        }
        b.outs.iter_mut().for_each(shift);
        let mut nodes = a.nodes;
        nodes.append(&mut b.nodes);
        let ins = match op {
            Op::Pipe | Op::Branch | Op::Bus => a.ins,
            _ => a.ins + b.ins,
        };
        let kind = match op {
            Op::Bus | Op::Add => Some(Kind::Add),
            Op::Sub => Some(Kind::Sub),
            Op::Mul => Some(Kind::Mul),
            _ => None,
        };
        let outs = match op {
            Op::Pipe => b.outs,
            Op::Branch | Op::Stack => {
                let mut outs = a.outs;
                outs.append(&mut b.outs);
                outs
            }
            _ => {
                let mut outs = vec![];
                for (x, y) in a.outs.iter().zip(b.outs.iter()) {
                    let unit = Unit { kind: kind.clone().unwrap(), ins: 2, outs: 1 };
                    nodes.insert(*synthetic, Node { unit, next: None, latest: None, src: vec![*x, *y], changed: 0 });
                    outs.push(Src::Local(*synthetic, 0));
                    *synthetic += 1;
                }
                outs
            }
        };
        let (rev, edits) = if b_back { (b.rev, b.edits) } else { (a.rev, a.edits) };
        Model { nodes, outs, ins, sr: a.sr, rev, edits }
    }

    /// Give all nodes new keys that nobody knows.
    fn anonymous(mut self, synthetic: &mut u64) -> Model {
        let mut map = BTreeMap::new();
        for k in self.nodes.keys() {
            map.insert(*k, *synthetic);
            *synthetic += 1;
        }
        let rename = |s: &mut Src| {
            if let Src::Local(k, _) = s {
                *k = map[k];
            }
        };
        self.outs.iter_mut().for_each(rename);
        let nodes = std::mem::take(&mut self.nodes);
        for (k, mut n) in nodes {
            n.src.iter_mut().for_each(rename);
            self.nodes.insert(map[&k], n);
        }
        self.edits.clear();
        self
    }

    /// Evaluation order, or none if there is a cycle.
    pub fn order(&self) -> Option<Vec<u64>> {
        let mut order = vec![];
        let mut state: BTreeMap<u64, u8> = BTreeMap::new();
        fn visit(m: &Model, key: u64, state: &mut BTreeMap<u64, u8>, order: &mut Vec<u64>) -> bool {
            match state.get(&key) {
                Some(1) => return false,
                Some(_) => return true,
                None => (),
            }
            state.insert(key, 1);
            for s in &m.nodes[&key].src {
                if let Src::Local(k, _) = s {
                    if !visit(m, *k, state, order) {
                        return false;
                    }
                }
            }
            state.insert(key, 2);
            order.push(key);
            true
        }
        for key in self.nodes.keys() {
            if !visit(self, *key, &mut state, &mut order) {
                return None;
            }
        }
        Some(order)
    }

    pub fn would_cycle(&self, source: u64, target: u64) -> bool {
        // Is target upstream of source?
        let mut stack = vec![source];
        let mut seen = vec![];
        while let Some(k) = stack.pop() {
            if k == target {
                return true;
            }
            if seen.contains(&k) {
                continue;
            }
            seen.push(k);
            for s in &self.nodes[&k].src {
                if let Src::Local(j, _) = s {
                    stack.push(*j);
                }
            }
        }
        false
    }

    /// Render one call of `size` samples. Returns the possible (state, output) pairs: when the
    /// end of a fade falls so close to the end of the call that rounding decides, both are legal.
    pub fn render(mut self, size: usize, input: &[Vec<f32>]) -> Vec<(Model, Vec<Vec<(f32, f32)>>)> {
        let mut out = vec![vec![(0.0, 0.0); size]; self.outs.len()];
        let Some(order) = self.order() else {
            // With a cycle, any node may see old data. Units still run once per sample.
            for node in self.nodes.values_mut() {
                if let Kind::Probe(s) = &mut node.unit.kind {
                    s.n += size as u64;
                }
            }
            for (c, s) in self.outs.iter().enumerate() {
                for i in 0..size {
                    out[c][i] = match s {
                        Src::Zero => (0.0, 0.0),
                        Src::Global(g) => (input[*g][i], 0.0),
                        Src::Local(..) => (0.0, f32::INFINITY),
                    };
                }
            }
            return vec![(self, out)];
        };
        let sr = self.sr;
        let mut values: BTreeMap<u64, Vec<(f32, f32)>> = BTreeMap::new();
        let mut frame = vec![];
        let mut y = vec![];
        let mut z = vec![];
        for i in 0..size {
            for key in &order {
                let node = self.nodes.get_mut(key).unwrap();
                frame.clear();
                for s in &node.src {
                    frame.push(match s {
                        Src::Zero => (0.0, 0.0),
                        Src::Global(g) => (input[*g][i], 0.0),
                        Src::Local(k, p) => values[k][*p],
                    });
                }
                node.unit.tick(&frame, &mut y);
                if let Some(next) = &mut node.next {
                    next.unit.tick(&frame, &mut z);
                    let length = next.time as f64 * sr as f64;
                    let j = next.t * sr as f64;
                    let phase = if length > 0.0 { j / length } else { 1.0 };
                    let a = ease(next.smooth, 1.0 - phase);
                    let b = ease(next.smooth, phase);
                    for c in 0..y.len() {
                        let mixed = (y[c].0 as f64 * a + z[c].0 as f64 * b) as f32;
                        let amp = y[c].0.abs() + z[c].0.abs();
                        let base = y[c].1 * a as f32 + z[c].1 * b as f32;
                        if j >= length + 1.0 {
                            y[c] = z[c];
                        } else if j + 1.5 >= length {
                            // The last sample of a fade may or may not be mixed.
                            // With very short fades the first sample may be all old.
                            let mut tol = (mixed - z[c].0).abs();
                            if length < 2.0 {
                                tol = tol.max((y[c].0 - z[c].0).abs());
                            }
                            y[c] = (z[c].0, z[c].1.max(y[c].1) + base + tol + 4.0e-3 * amp);
                        } else {
                            y[c] = (mixed, base + 4.0e-3 * amp);
                        }
                    }
                    next.t += 1.0 / sr as f64;
                }
                let v = values.entry(*key).or_default();
                v.clear();
                v.extend_from_slice(&y);
            }
            for (c, s) in self.outs.iter().enumerate() {
                out[c][i] = match s {
                    Src::Zero => (0.0, 0.0),
                    Src::Global(g) => (input[*g][i], 0.0),
                    Src::Local(k, p) => values[k][*p],
                };
            }
        }
        // End of fades.
        let mut states = vec![self];
        let keys: Vec<u64> = states[0].nodes.keys().copied().collect();
        for key in keys {
            let mut more = vec![];
            for state in states.iter_mut() {
                let node = state.nodes.get_mut(&key).unwrap();
                if let Some(next) = &node.next {
                    let length = next.time as f64 * sr as f64;
                    let j = next.t * sr as f64;
                    if j + 1.01 < length {
                        continue;
                    }
                    if j < length + 0.01 || size == 0 {
                        // Either.
                        let mut other = state.clone();
                        finish(other.nodes.get_mut(&key).unwrap());
                        more.push(other);
                    } else {
                        finish(node);
                    }
                }
            }
            states.append(&mut more);
        }
        states.into_iter().map(|s| (s, out.clone())).collect()
    }
}

fn finish(node: &mut Node) {
    let next = node.next.take().unwrap();
    node.unit = next.unit;
    node.next = node.latest.take();
}

impl Machine for Model {
    type Msg = Msg;
    fn apply(&mut self, m: &Msg) {
        Model::apply(self, m);
    }
    fn render(self, size: usize, input: &[Vec<f32>]) -> Vec<(Self, Vec<Vec<(f32, f32)>>)> {
        Model::render(self, size, input)
    }
}

// ---------------------------------------------------------------------------------------------
// Frontend: random edits on the real net and on the model, in step.

#[derive(Clone, Default)]
pub struct Cfg {
    pub fades: bool,
    pub settings: bool,
    pub resets: bool,
    pub rates: bool,
    pub cycles: bool,
    pub operators: bool,
    /// The backend is reset now and then.
    pub back_resets: bool,
    /// The net is combined with clones of itself.
    pub clones: bool,
    pub class: &'static str,
}

pub struct Front {
    pub net: Net,
    pub model: Model,
    pub cfg: Cfg,
    pub next_uid: u64,
    pub synthetic: u64,
    pub ids: BTreeMap<u64, NodeId>,
    pub has_backend: bool,
}

impl Front {
    pub fn new(cfg: Cfg, ins: usize, outs: usize) -> Self {
        Front {
            net: Net::new(ins, outs),
            model: Model::new(ins, outs),
            cfg,
            next_uid: 1,
            synthetic: 1 << 63,
            ids: BTreeMap::new(),
            has_backend: false,
        }
    }

    fn uid(&mut self) -> u64 {
        self.next_uid += 1;
        self.next_uid - 1
    }

    fn keys(&self) -> Vec<u64> {
        self.model.nodes.keys().copied().filter(|k| *k < 1 << 63).collect()
    }

    fn any_key(&self) -> Option<u64> {
        let keys = self.keys();
        if keys.is_empty() {
            None
        } else {
            Some(pick(&keys))
        }
    }

    pub fn fresh(&mut self, ins: usize, outs: usize) -> (Box<dyn AudioUnit>, Unit) {
        let uid = self.uid();
        let mut s = State::new(uid);
        s.sr = self.model.sr;
        (Probe::boxed(uid, ins, outs), Unit { kind: Kind::Probe(s), ins, outs })
    }

    fn insert(&mut self, id: NodeId, unit: Unit) -> u64 {
        let key = id.value();
        let ins = unit.ins;
        if self.model.nodes.contains_key(&key) || self.ids.contains_key(&key) {
            violate(self.cfg.class, format!("node ID {key} was given out twice"));
        }
        self.ids.insert(key, id);
        self.model.nodes.insert(
            key,
            Node { unit, next: None, latest: None, src: vec![Src::Zero; ins], changed: 0 },
        );
        key
    }

    fn id(&self, key: u64) -> NodeId {
        self.ids[&key]
    }

    fn remove_from_model(&mut self, key: u64, link: bool) {
        let node = self.model.nodes.remove(&key).unwrap();
        let subst = |s: Src| -> Src {
            match s {
                Src::Local(k, p) if k == key => {
                    if link {
                        node.src[p]
                    } else {
                        Src::Zero
                    }
                }
                x => x,
            }
        };
        for n in self.model.nodes.values_mut() {
            for s in n.src.iter_mut() {
                *s = subst(*s);
            }
        }
        for s in self.model.outs.iter_mut() {
            *s = subst(*s);
        }
        // A removed node's queued crossfades go with it.
        self.model.edits.retain(|(k, _)| *k != key);
        self.ids.remove(&key);
    }

    fn source_ok(&self, source: u64, target: u64) -> bool {
        source != target && (self.cfg.cycles || !self.model.would_cycle(source, target))
    }

    /// One random edit.
    pub fn edit(&mut self) {
        let ins = self.model.ins;
        let outs = self.model.outs.len();
        let c = &self.cfg;
        let w = [
            4,                                           // 0 push + connect
            2,                                           // 1 replace
            3,                                           // 2 connect
            2,                                           // 3 connect_output
            2,                                           // 4 remove
            1,                                           // 5 remove_link
            1,                                           // 6 disconnect
            1,                                           // 7 connect_input
            1,                                           // 8 pipe_input
            1,                                           // 9 pipe_output
            1,                                           // 10 pass_through
            1,                                           // 11 pipe_all
            2,                                           // 12 chain
            1,                                           // 13 set_source
            1,                                           // 14 set_output_source
            1,                                           // 15 disconnect_output
            if c.fades { 8 } else { 0 },                 // 16 crossfade
            if c.fades { 4 } else { 0 },                 // 17 fade_in
            if c.resets { 2 } else { 0 },                // 18 reset
            if c.rates { 2 } else { 0 },                 // 19 set_sample_rate
            if c.operators { 5 } else { 0 },             // 20 operators
        ];
        let op = weighted(&w);
        event(op as u64);
        match op {
            0 => {
                let (i, o) = (range(0, 3), if chance(1, 12) { 0 } else { range(1, 3) });
                let (unit, m) = self.fresh(i, o);
                let id = self.net.push(unit);
                let key = self.insert(id, m);
                trace!("push {key} ({i} in, {o} out)");
                for port in 0..i {
                    match choose(3) {
                        0 => {
                            if let Some(k) = self.any_key() {
                                if k != key && self.model.nodes[&k].unit.outs > 0 {
                                    let p = range(0, self.model.nodes[&k].unit.outs - 1);
                                    trace!("connect {k}.{p} -> {key}.{port}");
                                    self.net.connect(self.id(k), p, id, port);
                                    self.model.nodes.get_mut(&key).unwrap().src[port] = Src::Local(k, p);
                                }
                            }
                        }
                        1 if ins > 0 => {
                            let g = range(0, ins - 1);
                            self.net.connect_input(g, id, port);
                            self.model.nodes.get_mut(&key).unwrap().src[port] = Src::Global(g);
                        }
                        _ => (),
                    }
                }
                if outs > 0 && o > 0 && chance(1, 2) {
                    let c = range(0, outs - 1);
                    self.net.connect_output(id, 0, c);
                    self.model.outs[c] = Src::Local(key, 0);
                }
            }
            1 => {
                if let Some(key) = self.any_key() {
                    let (i, o) = (self.model.nodes[&key].unit.ins, self.model.nodes[&key].unit.outs);
                    let (unit, m) = self.fresh(i, o);
                    trace!("replace {key}");
                    let old = self.net.replace(self.id(key), unit);
                    if old.inputs() != i || old.outputs() != o {
                        violate(self.cfg.class, "replace returned a unit of another arity".into());
                    }
                    let rev = self.model.rev;
                    let node = self.model.nodes.get_mut(&key).unwrap();
                    node.unit = m;
                    node.changed = rev;
                }
            }
            2 => {
                if let (Some(a), Some(b)) = (self.any_key(), self.any_key()) {
                    let (o, i) = (self.model.nodes[&a].unit.outs, self.model.nodes[&b].unit.ins);
                    if o > 0 && i > 0 && self.source_ok(a, b) {
                        let (p, q) = (range(0, o - 1), range(0, i - 1));
                        trace!("connect {a}.{p} -> {b}.{q}");
                        self.net.connect(self.id(a), p, self.id(b), q);
                        self.model.nodes.get_mut(&b).unwrap().src[q] = Src::Local(a, p);
                    }
                }
            }
            3 => {
                if let Some(a) = self.any_key() {
                    let o = self.model.nodes[&a].unit.outs;
                    if o > 0 && outs > 0 {
                        let (p, q) = (range(0, o - 1), range(0, outs - 1));
                        trace!("connect_output {a}.{p} -> {q}");
                        self.net.connect_output(self.id(a), p, q);
                        self.model.outs[q] = Src::Local(a, p);
                    }
                }
            }
            4 => {
                if self.model.nodes.len() > 2 {
                    if let Some(a) = self.any_key() {
                        trace!("remove {a}");
                        let unit = self.net.remove(self.id(a));
                        if unit.inputs() != self.model.nodes[&a].unit.ins {
                            violate(self.cfg.class, "remove returned another unit".into());
                        }
                        self.remove_from_model(a, false);
                    }
                }
            }
            5 => {
                if let Some(a) = self.any_key() {
                    let u = &self.model.nodes[&a].unit;
                    if u.ins == u.outs && self.model.nodes.len() > 2 && self.model.order().is_some() {
                        trace!("remove_link {a}");
                        let _ = self.net.remove_link(self.id(a));
                        self.remove_from_model(a, true);
                    }
                }
            }
            6 => {
                if let Some(a) = self.any_key() {
                    let i = self.model.nodes[&a].unit.ins;
                    if i > 0 {
                        let p = range(0, i - 1);
                        trace!("disconnect {a}.{p}");
                        self.net.disconnect(self.id(a), p);
                        self.model.nodes.get_mut(&a).unwrap().src[p] = Src::Zero;
                    }
                }
            }
            7 => {
                if let Some(a) = self.any_key() {
                    let i = self.model.nodes[&a].unit.ins;
                    if i > 0 && ins > 0 {
                        let (g, p) = (range(0, ins - 1), range(0, i - 1));
                        trace!("connect_input {g} -> {a}.{p}");
                        self.net.connect_input(g, self.id(a), p);
                        self.model.nodes.get_mut(&a).unwrap().src[p] = Src::Global(g);
                    }
                }
            }
            8 => {
                if let Some(a) = self.any_key() {
                    trace!("pipe_input {a}");
                    self.net.pipe_input(self.id(a));
                    for (p, s) in self.model.nodes.get_mut(&a).unwrap().src.iter_mut().enumerate() {
                        *s = if ins > 0 { Src::Global(p % ins) } else { Src::Zero };
                    }
                }
            }
            9 => {
                if let Some(a) = self.any_key() {
                    trace!("pipe_output {a}");
                    self.net.pipe_output(self.id(a));
                    let o = self.model.nodes[&a].unit.outs;
                    for (c, s) in self.model.outs.iter_mut().enumerate() {
                        *s = if o > 0 { Src::Local(a, c % o) } else { Src::Zero };
                    }
                }
            }
            10 => {
                if ins > 0 && outs > 0 {
                    let (g, q) = (range(0, ins - 1), range(0, outs - 1));
                    trace!("pass_through {g} -> {q}");
                    self.net.pass_through(g, q);
                    self.model.outs[q] = Src::Global(g);
                }
            }
            11 => {
                if let (Some(a), Some(b)) = (self.any_key(), self.any_key()) {
                    if self.source_ok(a, b) {
                        trace!("pipe_all {a} -> {b}");
                        self.net.pipe_all(self.id(a), self.id(b));
                        let o = self.model.nodes[&a].unit.outs;
                        for (p, s) in self.model.nodes.get_mut(&b).unwrap().src.iter_mut().enumerate() {
                            *s = if o > 0 { Src::Local(a, p % o) } else { Src::Zero };
                        }
                    }
                }
            }
            12 => {
                let (i, o) = (range(0, 2), if chance(1, 12) { 0 } else { range(1, 3) });
                let (unit, m) = self.fresh(i, o);
                let first = self.model.nodes.is_empty();
                let before = self.model.outs.clone();
                let id = self.net.chain(unit);
                let key = self.insert(id, m);
                trace!("chain {key} ({i} in, {o} out)");
                let node = self.model.nodes.get_mut(&key).unwrap();
                for p in 0..i {
                    node.src[p] = if first {
                        if ins > 0 {
                            Src::Global(p % ins)
                        } else {
                            Src::Zero
                        }
                    } else if before.is_empty() {
                        Src::Zero
                    } else {
                        before[p % before.len()]
                    };
                }
                for (c, s) in self.model.outs.iter_mut().enumerate() {
                    *s = if o > 0 { Src::Local(key, c % o) } else { Src::Zero };
                }
            }
            13 => {
                if let Some(a) = self.any_key() {
                    let i = self.model.nodes[&a].unit.ins;
                    if i > 0 {
                        let p = range(0, i - 1);
                        let s = self.random_source(Some(a));
                        trace!("set_source {a}.{p} = {s:?}");
                        self.net.set_source(self.id(a), p, self.to_source(s));
                        self.model.nodes.get_mut(&a).unwrap().src[p] = s;
                    }
                }
            }
            14 => {
                if outs > 0 {
                    let q = range(0, outs - 1);
                    let s = self.random_source(None);
                    trace!("set_output_source {q} = {s:?}");
                    self.net.set_output_source(q, self.to_source(s));
                    self.model.outs[q] = s;
                }
            }
            15 => {
                if outs > 0 {
                    let q = range(0, outs - 1);
                    trace!("disconnect_output {q}");
                    self.net.disconnect_output(q);
                    self.model.outs[q] = Src::Zero;
                }
            }
            16 => {
                if let Some(key) = self.any_key() {
                    self.crossfade(key);
                }
            }
            17 => {
                let (i, o) = (range(0, 2), range(1, 2));
                let (unit, m) = self.fresh(i, o);
                let (smooth, time) = self.fade_params();
                let id = self.net.fade_in(fade_of(smooth), time, unit);
                let key = self.insert(id, Unit { kind: Kind::Dummy, ins: i, outs: o });
                trace!("fade_in {key} ({i} in, {o} out) over {time} s");
                let fading = Fading { unit: m, smooth, time, t: 0.0 };
                if self.has_backend {
                    self.model.edits.push((key, fading));
                } else {
                    self.model.enqueue(key, fading);
                }
                if i > 0 && ins > 0 {
                    self.net.pipe_input(id);
                    for (p, s) in self.model.nodes.get_mut(&key).unwrap().src.iter_mut().enumerate() {
                        *s = Src::Global(p % ins);
                    }
                }
                if outs > 0 {
                    let c = range(0, outs - 1);
                    self.net.connect_output(id, 0, c);
                    self.model.outs[c] = Src::Local(key, 0);
                }
            }
            18 => {
                trace!("reset");
                self.net.reset();
                self.model.reset();
                let rev = self.model.rev;
                for n in self.model.nodes.values_mut() {
                    n.changed = rev;
                }
            }
            19 => {
                let sr = pick(&[44100.0f32, 48000.0, 22050.0]);
                trace!("set_sample_rate {sr}");
                self.net.set_sample_rate(sr as f64);
                self.model.set_sr(sr);
            }
            20 => self.operator(),
            _ => (),
        }
    }

    fn fade_params(&mut self) -> (bool, f32) {
        let smooth = chance(1, 2);
        let samples = match choose(6) {
            0 => range(4, 40),
            1 => 64,
            2 => range(65, 200),
            3 => 0,
            4 => range(200, 600),
            _ => 128,
        };
        let frac = if chance(1, 3) { 0.5 } else { 0.0 };
        let samples = if samples == 0 { 0.0 } else { samples as f32 + frac };
        (smooth, samples / self.model.sr)
    }

    pub fn crossfade(&mut self, key: u64) {
        let (i, o) = (self.model.nodes[&key].unit.ins, self.model.nodes[&key].unit.outs);
        let (unit, m) = self.fresh(i, o);
        let (smooth, time) = self.fade_params();
        trace!("crossfade {key} over {time} s (smooth {smooth})");
        self.net.crossfade(self.id(key), fade_of(smooth), time, unit);
        let fading = Fading { unit: m, smooth, time, t: 0.0 };
        if self.has_backend {
            self.model.edits.push((key, fading));
        } else {
            self.model.enqueue(key, fading);
        }
    }

    fn random_source(&self, target: Option<u64>) -> Src {
        match choose(3) {
            0 => Src::Zero,
            1 if self.model.ins > 0 => Src::Global(range(0, self.model.ins - 1)),
            _ => match self.any_key() {
                Some(k) if self.model.nodes[&k].unit.outs > 0 && target.is_none_or(|t| self.source_ok(k, t)) => {
                    Src::Local(k, range(0, self.model.nodes[&k].unit.outs - 1))
                }
                _ => Src::Zero,
            },
        }
    }

    fn to_source(&self, s: Src) -> Source {
        match s {
            Src::Zero => Source::Zero,
            Src::Global(g) => Source::Global(g),
            Src::Local(k, p) => Source::Local(self.id(k), p),
        }
    }

    /// Another net of a given arity, made by edits of its own.
    fn other(&mut self, ins: usize, outs: usize) -> Front {
        let cfg = Cfg { fades: self.cfg.fades, rates: self.cfg.rates, class: self.cfg.class, ..Cfg::default() };
        let mut f = Front::new(cfg, ins, outs);
        f.next_uid = self.next_uid;
        f.synthetic = self.synthetic;
        if chance(3, 4) {
            // A single unit as the whole net.
            let (unit, m) = f.fresh(ins, outs);
            let (net, id) = Net::wrap_id(unit);
            f.net = net;
            let key = f.insert(id, m);
            f.model.nodes.get_mut(&key).unwrap().src = (0..ins).map(Src::Global).collect();
            f.model.outs = (0..outs).map(|c| Src::Local(key, c)).collect();
        }
        for _ in 0..range(0, 3) {
            f.edit();
        }
        self.next_uid = f.next_uid;
        self.synthetic = f.synthetic;
        f
    }

    /// `self op other` or `other op self`.
    fn combine(&mut self, op: Op, other: Front, flip: bool) {
        trace!("combine: {op:?} (flip {flip}), {} nodes", other.net.size());
        count("networks combined");
        let net = std::mem::replace(&mut self.net, Net::new(0, 0));
        let model = std::mem::replace(&mut self.model, Model::new(0, 0));
        for (k, id) in other.ids {
            if self.ids.insert(k, id).is_some() {
                violate(self.cfg.class, format!("node ID {k} was given out twice"));
            }
        }
        let back = self.has_backend;
        let syn = &mut self.synthetic;
        if flip {
            self.net = real_op(op, other.net, net);
            self.model = Model::combine(op, other.model, model, false, back, syn);
        } else {
            self.net = real_op(op, net, other.net);
            self.model = Model::combine(op, model, other.model, back, false, syn);
        }
    }

    fn pass_model(&mut self, n: usize) -> Model {
        let mut m = Model::new(n, n);
        let unit = Unit { kind: Kind::Pass, ins: n, outs: n };
        m.nodes.insert(self.synthetic, Node { unit, next: None, latest: None, src: (0..n).map(Src::Global).collect(), changed: 0 });
        m.outs = (0..n).map(|c| Src::Local(self.synthetic, c)).collect();
        self.synthetic += 1;
        m
    }

    fn constant_model(&mut self, v: f32, outs: usize) -> Model {
        let mut m = Model::new(0, outs);
        let unit = Unit { kind: Kind::Const(v), ins: 0, outs: 1 };
        m.nodes.insert(self.synthetic, Node { unit, next: None, latest: None, src: vec![], changed: 0 });
        m.outs = vec![Src::Local(self.synthetic, 0); outs];
        self.synthetic += 1;
        m
    }

    fn thru(&mut self) {
        trace!("!net");
        let net = std::mem::replace(&mut self.net, Net::new(0, 0));
        self.net = !net;
        let ins = self.model.ins;
        self.model.outs.truncate(ins);
        for i in self.model.outs.len()..ins {
            self.model.outs.push(Src::Global(i));
        }
    }

    /// Combine the net with another through a graph operator. With a backend the arity is
    /// restored in the end.
    fn operator(&mut self) {
        let ins = self.model.ins;
        let outs = self.model.outs.len();
        let back = self.has_backend;
        let flip = chance(1, 2);
        match choose(11) {
            0 => {
                let o = self.other(outs, if back { outs } else { range(1, 3) });
                self.combine(Op::Pipe, o, false);
            }
            1 => {
                let i = if back { ins } else { range(0, 2) };
                let o = self.other(i, ins);
                self.combine(Op::Pipe, o, true);
            }
            2 => {
                let o = self.other(ins, outs);
                self.combine(Op::Bus, o, flip);
            }
            3 => {
                let i = if back || ins > 2 { 0 } else { range(0, 3 - ins) };
                let o = self.other(i, outs);
                let op = pick(&[Op::Add, Op::Sub, Op::Mul]);
                self.combine(op, o, flip);
            }
            4 => {
                // f32 op net
                let v = uniform(-2.0, 2.0) as f32;
                let op = pick(&[Op::Mul, Op::Add, Op::Sub]);
                trace!("{op:?} {v} (flip {flip})");
                let net = std::mem::replace(&mut self.net, Net::new(0, 0));
                self.net = match (op, flip) {
                    (Op::Mul, false) => net * v,
                    (Op::Mul, true) => v * net,
                    (Op::Add, false) => net + v,
                    (Op::Add, true) => v + net,
                    (_, false) => net - v,
                    (_, true) => v - net,
                };
                let c = self.constant_model(v, outs);
                self.combine_models(op, c, flip);
            }
            5 => {
                trace!("-net");
                let net = std::mem::replace(&mut self.net, Net::new(0, 0));
                self.net = -net;
                let c = self.constant_model(0.0, outs);
                self.combine_models(Op::Sub, c, true);
            }
            6 | 7 => {
                let (op, i, o) = if chance(1, 2) { (Op::Branch, ins, range(0, 2)) } else { (Op::Stack, if back || ins > 2 { 0 } else { range(0, 3 - ins) }, range(0, 2)) };
                if back || outs + o <= 4 {
                    let x = self.other(i, o);
                    self.combine(op, x, flip);
                    if back {
                        let n = self.model.outs.len();
                        let x = self.other(n, outs);
                        self.combine(Op::Pipe, x, false);
                    }
                }
            }
            8 => {
                if ins > 0 {
                    self.thru();
                    if back {
                        let x = self.other(ins, outs);
                        self.combine(Op::Pipe, x, false);
                    }
                }
            }
            9 => {
                // A static graph on one side.
                let n = if chance(1, 2) { 1 } else { 2 };
                let mut ops = vec![];
                if outs == n {
                    ops.push((Op::Pipe, false));
                }
                if ins == n {
                    ops.push((Op::Pipe, true));
                    if outs == n {
                        ops.push((Op::Bus, flip));
                    }
                }
                if !back {
                    if ins + n <= 3 && outs == n {
                        ops.push((pick(&[Op::Add, Op::Sub, Op::Mul]), flip));
                    }
                    if outs + n <= 4 {
                        if ins == n {
                            ops.push((Op::Branch, flip));
                        }
                        if ins + n <= 3 {
                            ops.push((Op::Stack, flip));
                        }
                    }
                }
                if !ops.is_empty() {
                    let (op, flip) = pick(&ops);
                    trace!("combine with a static graph: {op:?} (flip {flip})");
                    let net = std::mem::replace(&mut self.net, Net::new(0, 0));
                    self.net = if n == 1 {
                        real_op_an(op, net, multipass::<U1>(), flip)
                    } else {
                        real_op_an(op, net, multipass::<U2>(), flip)
                    };
                    let m = self.pass_model(n);
                    self.combine_models(op, m, flip);
                }
            }
            _ => {
                if self.cfg.clones && self.model.nodes.len() < 24 && self.model.order().is_some() {
                    // The left operand keeps its IDs.
                    trace!("net & net.clone()");
                    count("network combined with its clone");
                    let clone = self.net.clone();
                    let m = self.model.clone().anonymous(&mut self.synthetic);
                    let net = std::mem::replace(&mut self.net, Net::new(0, 0));
                    self.net = net & clone;
                    self.combine_models(Op::Bus, m, false);
                }
            }
        }
    }

    fn combine_models(&mut self, op: Op, other: Model, flip: bool) {
        let back = self.has_backend;
        let model = std::mem::replace(&mut self.model, Model::new(0, 0));
        let syn = &mut self.synthetic;
        self.model = if flip {
            Model::combine(op, other, model, false, back, syn)
        } else {
            Model::combine(op, model, other, back, false, syn)
        };
    }

    /// Compare everything the frontend can be asked with the model.
    pub fn inspect(&mut self) {
        let class = self.cfg.class;
        self.net.check();
        let fail = |what: String| -> ! { violate(class, what) };
        if self.net.size() != self.model.nodes.len() {
            fail(format!("size() is {}, expected {}", self.net.size(), self.model.nodes.len()));
        }
        for key in self.keys() {
            let id = self.id(key);
            if !self.net.contains(id) {
                fail(format!("net does not contain node {key}"));
            }
            let node = &self.model.nodes[&key];
            if self.net.inputs_in(id) != node.unit.ins || self.net.outputs_in(id) != node.unit.outs {
                fail(format!("arity of node {key} is wrong"));
            }
            for (p, s) in node.src.iter().enumerate() {
                let real = self.net.source(id, p);
                if !self.same_source(real, *s) {
                    fail(format!("source({key}, {p}) is {real:?}, expected {s:?}"));
                }
            }
        }
        for (c, s) in self.model.outs.iter().enumerate() {
            let real = self.net.output_source(c);
            if !self.same_source(real, *s) {
                fail(format!("output_source({c}) is {real:?}, expected {s:?}"));
            }
        }
        let mut ids: Vec<u64> = self.net.ids().map(|i| i.value()).collect();
        ids.sort();
        ids.dedup();
        if ids.len() != self.model.nodes.len() {
            fail("ids() does not list every node once".into());
        }
        let cyclic = self.model.order().is_none();
        let error = self.net.error().is_some();
        if cyclic != error {
            fail(format!("error() is {error}, but the graph {} a cycle", if cyclic { "has" } else { "does not have" }));
        }
        if cyclic {
            count("cycle reported");
        }
    }

    fn same_source(&self, real: Source, s: Src) -> bool {
        match (real, s) {
            (Source::Zero, Src::Zero) => true,
            (Source::Global(a), Src::Global(b)) => a == b,
            (Source::Local(id, p), Src::Local(k, q)) => p == q && (k >= 1 << 63 || id.value() == k),
            _ => false,
        }
    }

    /// The message that `commit` sends, and what it does to the frontend.
    pub fn commit_message(&mut self) -> Msg {
        let mut snapshot = self.model.clone();
        snapshot.edits = std::mem::take(&mut self.model.edits);
        // The frontend's copy of a crossfaded node is the new unit.
        for (key, f) in &snapshot.edits {
            self.model.nodes.get_mut(key).unwrap().unit = f.unit.clone();
        }
        self.model.rev += 1;
        Msg::Commit(snapshot)
    }
}

// ---------------------------------------------------------------------------------------------
// The live scenario.

pub fn setting_target(front: &Front) -> Option<u64> {
    // A queued crossfade that has not been committed makes the target of a setting ambiguous.
    let keys: Vec<u64> = front
        .keys()
        .into_iter()
        .filter(|k| !front.model.edits.iter().any(|(e, _)| e == k))
        .collect();
    if keys.is_empty() {
        None
    } else {
        Some(pick(&keys))
    }
}

pub fn live(cfg: Cfg, rt: bool, conserve: bool) {
    let (i, o) = (range(0, 2), range(1, 2));
    let mut front = Front::new(cfg.clone(), i, o);
    // Initial graph, sometimes rendered before it gets a backend.
    let edits = if chance(1, 10) { range(6, 30) } else { range(1, 6) };
    for _ in 0..edits {
        front.edit();
    }
    let ins = front.model.ins;
    let outs = front.model.outs.len();
    if chance(1, 3) {
        let size = range(1, 64);
        let ticks = chance(1, 2);
        let input: Vec<Vec<f32>> = (0..ins).map(|c| (0..size).map(|i| input_at(c, i as u64)).collect()).collect();
        let mut states = vec![front.model.clone()];
        let step = |front: &mut Front, states: &mut Vec<Model>, n: usize, ticks: bool, part: &[Vec<f32>]| {
            let (out, _, _) = render(&mut front.net, n, ticks, part);
            let mut next: Vec<Model> = vec![];
            let mut why = String::new();
            for state in states.drain(..) {
                for (m, e) in state.render(n, part) {
                    match mismatch(&e, &out) {
                        None if !next.contains(&m) => next.push(m),
                        None => (),
                        Some(w) => why = w,
                    }
                }
            }
            if next.is_empty() {
                violate(front.cfg.class, format!("net without a backend rendered the wrong thing: {why}"));
            }
            *states = next;
        };
        for i in 0..if ticks { size } else { 1 } {
            let n = if ticks { 1 } else { size };
            let part: Vec<Vec<f32>> = input.iter().map(|c| c[i..i + n].to_vec()).collect();
            step(&mut front, &mut states, n, ticks, &part);
        }
        // The frontend continues from a known state: go on until there is only one.
        let mut tries = 0;
        while states.len() > 1 {
            tries += 1;
            if tries > 40 {
                return;
            }
            let part = vec![vec![0.25; 64]; ins];
            step(&mut front, &mut states, 64, false, &part);
        }
        front.model = states.pop().unwrap();
        if front.model.nodes.values().any(|n| n.next.is_some()) {
            count("backend made during a fade");
        }
    }
    let backend = front.net.backend();
    front.has_backend = true;
    let start = front.model.clone();
    front.model.rev = 1;
    // The frontend keeps its own copies.
    let back = Back::new(Box::new(backend), ins, outs);
    let world = World::new(start);
    let front = Rc::new(RefCell::new(front));
    let w1 = world.clone();
    let f1 = front.clone();
    let w2 = world.clone();
    let class = cfg.class;
    let cfg2 = cfg.clone();
    let ops = range(1, 24);
    if chance(1, 50) {
        burst(&front, &world, rt);
    }
    let back = pair(
        &world,
        back,
        move || {
            let mut front = f1.borrow_mut();
            for _ in 0..ops {
                match weighted(&[4, 3, if front.cfg.settings { 4 } else { 0 }]) {
                    0 => front.edit(),
                    1 => {
                        commit(&mut front, &w1);
                    }
                    _ => {
                        if let Some(key) = setting_target(&front) {
                            send_setting(&mut front, &w1, key);
                        }
                    }
                }
                yield_now();
            }
            commit(&mut front, &w1);
            if crash() == Crash::Front {
                trace!("frontend dropped");
                count("fault: frontend dropped");
                front.net = Net::new(0, 0);
            }
        },
        move |back| {
            if cfg2.back_resets && chance(1, 8) {
                trace!("backend reset");
                count("backend reset");
                act_loose(&w2, back, |u| u.reset(), |m| m.reset());
            }
            if chance(1, 20) {
                allocate_back(&w2, back);
            }
            audio_call(&w2, back, class, rt)
        },
    );
    let Some(mut back) = back else {
        // The frontend still edits and renders its own network.
        {
            let mut front = front.borrow_mut();
            for _ in 0..range(0, 4) {
                front.edit();
                commit(&mut front, &world);
            }
        }
        if world.borrow().msgs.len() > 1 {
            nontrivial();
        }
        drop(front);
        drop(world);
        all_gone();
        return;
    };
    if crash() == Crash::None && chance(1, 50) {
        burst(&front, &world, rt);
    }
    // The threads have finished: the last commit has to be heard in the next call, and any
    // crossfades have to end in their time.
    for _ in 0..range(2, 6) {
        audio_call(&world, &mut back, cfg.class, rt);
    }
    if cfg.fades {
        for _ in 0..12 {
            call_with(&world, &mut back, cfg.class, rt, false, 64);
        }
        for _ in 0..14 {
            call_with(&world, &mut back, cfg.class, rt, false, 64);
        }
        let w = world.borrow();
        let c = &w.candidates;
        if !c.gave_up {
            if c.states.iter().all(|(_, m)| m.nodes.values().all(|n| n.next.is_none())) {
                count("all fades ended");
            }
        }
    }
    if world.borrow().msgs.len() > 1 {
        nontrivial();
    }
    count_n("messages sent", world.borrow().msgs.len() as u64);
    count_n("audio calls", world.borrow().calls);
    if conserve {
        let mut front = front.borrow_mut();
        // Retired units come back to the frontend and are freed by it.
        commit(&mut front, &world);
        call_with(&world, &mut back, cfg.class, rt, false, 8);
        commit(&mut front, &world);
        let uid_of = |u: &Unit| if let Kind::Probe(s) = &u.kind { Some(s.uid) } else { None };
        // Units of the graph, and those that a fade may already have retired.
        let mut used: Vec<u64> = vec![];
        let mut fading: Vec<u64> = vec![];
        for n in front.model.nodes.values() {
            let all = [Some(&n.unit), n.next.as_ref().map(|f| &f.unit), n.latest.as_ref().map(|f| &f.unit)];
            let mut all: Vec<u64> = all.into_iter().flatten().filter_map(uid_of).collect();
            let newest = n.latest.as_ref().or(n.next.as_ref()).map_or(&n.unit, |f| &f.unit);
            if let Some(uid) = uid_of(newest) {
                used.push(uid);
                all.retain(|u| *u != uid);
            }
            fading.extend(all);
        }
        for uid in 1..front.next_uid {
            let n = crate::probe::live(uid);
            if n < 0 {
                violate("C14/conservation", format!("unit {uid} was dropped more often than it was made"));
            }
            if fading.contains(&uid) {
                continue;
            }
            if !used.contains(&uid) && n != 0 {
                violate("C14/conservation", format!("{n} instances of unit {uid}, which no graph refers to any more, have not been freed"));
            }
            // Frontend copy, backend copy, and the two of the commit still in the channel.
            if used.contains(&uid) && !(1..=3).contains(&n) {
                violate("C14/conservation", format!("{n} instances of unit {uid} are alive"));
            }
        }
    }
    drop(back);
    drop(front);
    drop(world);
    if crash() == Crash::Front {
        all_gone();
    }
    if conserve && live_total() != 0 {
        violate("C14/conservation", format!("{} units were never dropped", live_total()));
    }
}

/// The audio thread stalls while many messages are sent, short of the capacity of the queue.
fn burst(front: &Rc<RefCell<Front>>, world: &Worldly<Model>, rt: bool) {
    let mut front = front.borrow_mut();
    let n = pick(&[10, 40, 100, 300, if rt { 100 } else { 900 }]);
    let settings = front.cfg.settings && chance(2, 3);
    count("fault: audio stalled during a burst of messages");
    trace!("burst of {n}");
    for _ in 0..n {
        match (settings && !chance(1, 20), setting_target(&front)) {
            (true, Some(key)) => send_setting(&mut front, world, key),
            _ => {
                if chance(1, 4) {
                    front.edit();
                }
                commit(&mut front, world);
            }
        }
    }
}

pub fn commit(front: &mut Front, world: &Worldly<Model>) {
    front.inspect();
    let m = front.commit_message();
    begin(world, m);
    trace!("commit begins");
    front.net.commit();
    end(world);
    event(0xc0);
    trace!("commit returned");
}

pub fn send_setting(front: &mut Front, world: &Worldly<Model>, key: u64) {
    let v = choose(1000) as f32;
    trace!("set {key} = {v}");
    begin(world, Msg::Setting(key, v));
    front.model.setting(key, v);
    front.net.set(Setting::value(v).node(front.ids[&key]));
    end(world);
    event(0x5e);
    trace!("set returned");
}

fn c01() {
    live(
        Cfg {
            resets: chance(1, 3),
            rates: chance(1, 3),
            operators: chance(1, 2),
            back_resets: chance(1, 4),
            clones: chance(1, 4),
            class: "C01/commit",
            ..Cfg::default()
        },
        false,
        false,
    );
}

fn c02() {
    live(
        Cfg { fades: true, resets: chance(1, 4), rates: chance(1, 4), operators: chance(1, 6), back_resets: chance(1, 6), class: "C02/fade", ..Cfg::default() },
        false,
        false,
    );
}

fn c03() {
    live(
        Cfg {
            settings: true,
            fades: chance(1, 2),
            resets: chance(1, 3),
            rates: chance(1, 4),
            operators: chance(1, 6),
            class: "C03/setting",
            ..Cfg::default()
        },
        false,
        false,
    );
}

fn c04() {
    live(
        Cfg { cycles: chance(1, 2), operators: true, rates: chance(1, 6), clones: chance(1, 2), class: "C04/graph", ..Cfg::default() },
        false,
        false,
    );
}

pub fn props() -> Vec<Prop> {
    const REAL: &str = "Net, NetBackend, Vertex, thingbuf channels, Setting (all real, hooks on)";
    const STUB: &str = "threads (coroutines on one thread under the seeded scheduler), audio callback, contained units (probes)";
    let p = |id, title, run, rule| Prop {
        id,
        title,
        run,
        fresh: false,
        rule,
        real: REAL,
        stub: STUB,
        quick_s: 40.0,
        thorough_s: 600.0,
    };
    vec![
        p("C01", "Net commits are atomic", c01, "random graph edits, commits and audio calls interleaved at channel operations; non-trivial: at least two messages were sent"),
        p("C02", "Net crossfades", c02, "as C01 with crossfades and fade-ins"),
        p("C03", "Net settings", c03, "as C01 with settings"),
        p("C04", "Net graph editing", c04, "as C01 with cycles and operators"),
    ]
}
