//! What holds across all of the live structures: nothing is allocated or freed on the audio
//! side (C13), and units are neither lost nor duplicated (C14).

use crate::core::*;
use crate::runner::Prop;
use crate::{net, ports, seq, shared, units};

fn c13() {
    match choose(15) {
        0 | 1 | 2 => net::live(
            net::Cfg {
                fades: chance(1, 2),
                settings: chance(1, 2),
                resets: chance(1, 4),
                rates: chance(1, 4),
                operators: chance(1, 4),
                cycles: chance(1, 4),
                class: "C01/output",
                ..net::Cfg::default()
            },
            true,
            false,
        ),
        3 | 4 => seq::live(
            seq::Cfg { rates: chance(1, 4), resets: chance(1, 2), fades: chance(1, 2), class: "C06/output" },
            true,
            false,
        ),
        5 | 6 => ports::slot(ports::SlotCfg { class: "C07/output", rt: true, conserve: false }),
        7 => ports::snoop("C08/output", true),
        8 => ports::ring("C09/output", true),
        9 => ports::listener("C10/output", true),
        10 | 11 => shared::shared_all("C11/output", true),
        _ => units::c13(),
    }
}

fn c14() {
    match choose(3) {
        0 => net::live(
            net::Cfg {
                fades: chance(1, 2),
                settings: chance(1, 4),
                resets: chance(1, 4),
                rates: chance(1, 4),
                operators: chance(1, 4),
                cycles: false,
                class: "C01/output",
                ..net::Cfg::default()
            },
            false,
            true,
        ),
        1 => seq::live(
            seq::Cfg { rates: chance(1, 4), resets: chance(1, 2), fades: chance(1, 2), class: "C06/output" },
            false,
            true,
        ),
        _ => ports::slot(ports::SlotCfg { class: "C07/output", rt: false, conserve: true }),
    }
}

/// One of the halves goes away.
fn c22() {
    let c = if chance(1, 2) { Crash::Front } else { Crash::Back };
    with(|x| x.crash = c);
    match choose(10) {
        0..=2 => net::live(
            net::Cfg {
                fades: chance(1, 2),
                settings: chance(1, 2),
                resets: chance(1, 4),
                rates: chance(1, 4),
                operators: chance(1, 4),
                cycles: false,
                class: "C22/net",
                ..net::Cfg::default()
            },
            false,
            false,
        ),
        3 | 4 => seq::live(
            seq::Cfg { rates: chance(1, 4), resets: chance(1, 2), fades: chance(1, 2), class: "C22/sequencer" },
            false,
            false,
        ),
        5 | 6 => ports::slot(ports::SlotCfg { class: "C22/slot", rt: false, conserve: false }),
        7 => ports::snoop("C22/snoop", false),
        8 => ports::ring("C22/ring", false),
        _ => ports::listener("C22/listener", false),
    }
}

pub fn props() -> Vec<Prop> {
    const STUB: &str = "threads (coroutines on one thread under the seeded scheduler), audio callback, contained units (probes), allocator (counting)";
    let p = |id, title, run, rule, real| Prop { id, title, run, fresh: false, rule, real, stub: STUB, quick_s: 40.0, thorough_s: 600.0 };
    vec![
        p("C13", "Audio thread does not allocate", c13, "the workloads of C01 to C11 with every allocation and deallocation on the audio side counted; non-trivial: as there", "Net, Sequencer, Slot, Snoop, Ring, SettingListener, Shared and their backends, thingbuf channels (all real, hooks on)"),
        p("C14", "Units are neither lost nor leaked", c14, "the workloads of C01, C02, C06 and C07 with every instance of every unit counted; non-trivial: at least two messages were sent", "Net, Sequencer, Slot and their backends, thingbuf channels (all real, hooks on)"),
        p("C22", "Either half may go away", c22, "the workloads of C01 to C10 with one half dropped after a random number of operations; non-trivial: at least two messages were sent", "Net, Sequencer, Slot, Snoop, Ring, SettingListener and their backends, thingbuf channels (all real, hooks on)"),
    ]
}
