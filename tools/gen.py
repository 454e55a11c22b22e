#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []  # claimed
N = []  # not applicable

def prop(id, title, statement, over, text, why, files, mech, observe, hook, level_note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook),
                  level_note=level_note))

def na(id, title, statement, text, why, files, mech, reason):
    N.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None), reason=reason))

SCHED = "Seeded search over schedules: a clean batch is evidence, not proof. Trusts the coroutine scheduler, the probe units and the reference model; assumes sequentially consistent memory and that preemption matters only at channel and atomic operations."
HOOK = "sim seam (channels, atomics) behind --cfg fundsp_sim"

prop("C01", "Commits to a live Net are atomic and keep the state of surviving nodes",
     "Every audio call on the backend of a Net renders exactly the graph of one point of the commit history: all commits that had returned when the call began are in effect, and no edit that was not committed is heard. A node that stays in the graph over a commit continues from its state, sample for sample, a new or replaced node starts from its beginning, and commits are never skipped, merged wrongly or applied out of order, whatever the number of commits between two audio calls. Resets and sample rate changes made to the frontend reach the backend with the commit that follows them. A reset of the backend itself starts every node of it from its beginning.",
     ["schedules", "histories", "programs"], "every interleaving of edits, commits and audio calls, every graph reachable by edits, every block size",
     "Tests run frontend and backend in one thread in a fixed order and check a handful of graphs; the interleavings of several commits with rendering are not sampled.",
     ["src/net.rs", "src/realnet.rs", "src/vertex.rs"],
     [("commit", "src/net.rs"), ("migrate", "src/net.rs"), ("handle_messages", "src/realnet.rs")],
     ["output samples of NetBackend"], HOOK, SCHED)
prop("C02", "Net crossfades are heard once, in full, and end in time",
     "A committed crossfade or fade-in blends the old unit out and the new one in along its curve over its fade time, starting at the audio call that receives it, and from then on only the new unit is heard, in phase. When more fades of a node are committed while one is running, the running one is completed and the latest of the others follows. Commits, resets and sample rate changes during a fade do not restart, drop or repeat it.",
     ["schedules", "histories"], "every interleaving of crossfades, other edits, commits and audio calls of any size",
     "The test of fades makes one crossfade at a time in a fixed order.",
     ["src/net.rs", "src/realnet.rs", "src/vertex.rs"],
     [("crossfade", "src/net.rs"), ("apply_edits", "src/net.rs"), ("process/tick with fades", "src/vertex.rs")],
     ["output samples of NetBackend"], HOOK, SCHED + " A fade may end within a sample of its length.")
prop("C03", "Settings sent to a live Net are applied once, in order, to the right node",
     "Each setting addressed to a node of a live Net is applied exactly once to that node, in the order sent relative to other settings and commits, no later than the first audio call that begins after the send returned. A node that is being faded in receives the settings sent to it, and later commits and fades do not undo settings. Settings to other nodes or to removed nodes change nothing.",
     ["schedules", "histories"], "every interleaving of settings, commits, crossfades and audio calls",
     "Tests apply one setting at a time to units without a backend.",
     ["src/net.rs", "src/realnet.rs", "src/vertex.rs", "src/setting.rs"],
     [("Net::set", "src/net.rs"), ("handle_messages", "src/realnet.rs")],
     ["output samples of NetBackend"], HOOK, SCHED)
prop("C04", "Net edits keep the graph consistent and rendering follows the wiring",
     "After any sequence of valid edits (adding, removing with or without bridging, replacing, connecting, disconnecting, piping and combining networks with operators) what the Net reports about its nodes, sources and outputs equals the sequence applied to an abstract graph, its self-check passes, and both the Net and its backend render that graph, each node after the nodes it reads. Removing a node removes exactly its own edges. A connection that makes a cycle is reported as an error and clears once the cycle is removed.",
     ["histories", "programs"], "every sequence of edits, interleaved with commits and audio calls",
     "Tests build random networks by pushing and connecting; removal, relinking and operators on edited networks are tested on a few fixed examples.",
     ["src/net.rs"],
     [("remove_node", "src/net.rs"), ("determine_order", "src/net.rs"), ("check", "src/net.rs"), ("operators", "src/net.rs")],
     ["Net inspection methods", "output samples"], HOOK, SCHED)
prop("C05", "Sequencer plays every event exactly in its time window",
     "For any set of events and any division of time into audio calls, the output is the sum of the event units, each started at the sample nearest its start time and stopped at the sample nearest its end time, faded along its curve over its fade times. Edits of end time and fade-out take effect from then on. A reset returns to time zero and replays all events if the sequencer retains events, and clears them otherwise; a sample rate change keeps the timing in seconds.",
     ["histories", "inputs"], "every set of events and edits, every sequence of block sizes, ticks, resets and sample rate changes",
     "Tests compare one random arrangement of events with a mix rendered in one way; block divisions, edits, resets and fades in mid-block are not crossed.",
     ["src/sequencer.rs"],
     [("process", "src/sequencer.rs"), ("tick", "src/sequencer.rs"), ("ready_to_active", "src/sequencer.rs"), ("edit", "src/sequencer.rs")],
     ["output samples of Sequencer"], None,
     "Seeded search against a sample-by-sample reference model; event edges within a thousandth of a sample of a rounding boundary are not judged. Edits that lengthen or revive an event are not judged.")
prop("C06", "Sequencer frontend operations reach the backend in order and in time",
     "Events pushed, edits and resets made in the frontend of a sequencer take effect in the backend in the order made, each exactly once, no later than the first audio call that begins after the operation returned; relative times count from the audio call that receives them. The backend then plays as a plain sequencer would.",
     ["schedules", "histories"], "every interleaving of frontend operations with audio calls and backend resets",
     "Tests push everything first and render afterwards in the same thread.",
     ["src/sequencer.rs", "src/realseq.rs"],
     [("handle_messages", "src/realseq.rs"), ("push_event", "src/sequencer.rs"), ("edit_relative", "src/sequencer.rs")],
     ["output samples of SequencerBackend"], HOOK, SCHED)
prop("C07", "Slot crossfades to the newest unit without gaps",
     "A unit set into a slot is faded in along its curve over its fade time, from the first audio call that begins after the set returned at the latest; meanwhile the old unit is faded out and afterwards only the new one is heard, in phase and at the slot's sample rate. Units set while a fade is running wait for it, the newest of them wins, and the one set last is always the one heard in the end. A reset of the backend ends fades and starts the newest unit from its beginning.",
     ["schedules", "histories"], "every interleaving of sets with audio calls, resets and sample rate changes",
     "One test sets a unit and renders in the same thread.",
     ["src/slot.rs"], [("handle_messages", "src/slot.rs"), ("next_phase", "src/slot.rs")],
     ["output samples of SlotBackend"], HOOK, SCHED)
prop("C08", "Snoop delivers the audio stream in whole buffers, in order",
     "A snoop passes audio through unchanged and delivers it to the other thread in consecutive buffers of 64 samples, in order and without duplication; a buffer is left out only when the queue is full. What the frontend shows of the latest samples and of their total number equals what it has received.",
     ["schedules", "histories"], "every interleaving of audio calls of any size with polling, stalls and full queues",
     "The tests poll a snoop in the rendering thread.",
     ["src/snoop.rs"], [("SnoopBackend tick/process", "src/snoop.rs"), ("get/update", "src/snoop.rs")],
     ["Snoop::get, at, total", "output samples"], HOOK, SCHED)
prop("C09", "Ring is a lossless first-in first-out queue of frames",
     "Every frame accepted by a ring comes out exactly once, in order, one per sample and without gaps while frames are available; there is silence when the ring is empty. A frame is refused only when the ring is full, and frames accepted before the sender goes away still come out.",
     ["schedules", "histories", "crash_points"], "every interleaving of sends with audio calls, with the sender dropped at any point",
     "No test uses the ring from two sides.",
     ["src/ring.rs"], [("Ring tick/process", "src/ring.rs")],
     ["output samples of Ring"], HOOK, SCHED)
prop("C10", "Setting listeners apply every accepted setting once and in order",
     "A setting accepted by a sender is applied exactly once to the node at its address inside the listened graph, settings of one sender in the order sent, no later than the first audio call that begins after the send returned. Settings are refused only when the queue is full, and the listener otherwise behaves as the graph it wraps, also in resets and sample rate changes.",
     ["schedules", "histories", "programs"], "every interleaving of one to three senders with audio calls, over graph structures and addresses",
     "Tests send a setting and render in one thread.",
     ["src/setting.rs", "src/audionode.rs"], [("SettingListener", "src/setting.rs"), ("left/right/index addressing in set", "src/audionode.rs")],
     ["output samples of SettingListener"], HOOK, SCHED)
prop("C11", "Shared variables, tables, timers and monitors never show a torn or lost value",
     "Reads and writes of a shared variable from any threads are linearizable, and a node that plays it outputs a value it has held during the audio call. A timer or monitor shows what the audio thread last published, advancing by the time rendered, and passes audio unchanged. A table that is changed while it is played yields at each sample a value its entries have held, the newest written ones once the write has returned.",
     ["schedules", "histories"], "every interleaving of writers, readers and audio nodes at every atomic access",
     "Tests use shared variables from one thread.",
     ["src/shared.rs", "src/dynamics.rs", "src/wavetable.rs"], [("Shared/Atomic", "src/shared.rs"), ("Monitor", "src/dynamics.rs"), ("AtomicTable", "src/wavetable.rs")],
     ["Shared::value", "output samples"], HOOK, SCHED)
prop("C12", "Node and event identifiers are unique across threads",
     "No two calls for a new identifier return the same one, from any number of threads, also where the generator carries over from its lower to its upper word and when atomic exchanges fail spuriously.",
     ["schedules"], "every interleaving of up to four threads at every atomic access, from states on both sides of the carry",
     "The carry happens after four billion identifiers; tests draw a few from one thread.",
     ["src/net.rs", "src/sequencer.rs", "src/shared.rs"], [("IdGenerator::get_id", "src/shared.rs")],
     ["NodeId, EventId"], "IdGenerator::with_state and atomics seam behind --cfg fundsp_sim",
     SCHED + " Assumes that no call is suspended while 2^32 others complete.")
prop("C13", "The audio side neither allocates nor frees memory",
     "After a unit has been prepared with allocate (live backends prepare themselves), audio calls make no allocation and no deallocation, whatever the other threads do: units, graphs, events and messages that retire are handed back and freed on the other side. This holds for resets that the audio thread makes on sequencer and slot backends as well, and for every unit of the library and composition of units, apart from the granular synthesizer, which creates its grains as it goes.",
     ["schedules", "histories", "programs"], "every interleaving of frontend operations and audio calls, every live structure, every unit and composition of units, every past before allocate",
     "Tests do not watch the allocator.",
     ["src/net.rs", "src/realnet.rs", "src/vertex.rs", "src/realseq.rs", "src/sequencer.rs", "src/slot.rs", "src/snoop.rs", "src/ring.rs", "src/setting.rs"],
     [("allocate", "src/audiounit.rs"), ("return channels", "src/realnet.rs"), ("return channels", "src/realseq.rs"), ("return channels", "src/slot.rs")],
     ["global allocator"], HOOK, SCHED + " Return queues that overflow because the frontend is never used again are outside the claim.")
prop("C14", "Retired units are handed back and freed, none is lost or duplicated",
     "Units that leave a live Net, Sequencer or Slot (removed, replaced, faded out, ended or reset) are returned and freed by the next commit, event operation or set that follows the audio call which retired them, and no unit that is still in use is freed or duplicated. When both halves are gone, no unit remains.",
     ["schedules", "histories"], "every interleaving of frontend operations and audio calls",
     "Tests do not count units.",
     ["src/net.rs", "src/realnet.rs", "src/vertex.rs", "src/realseq.rs", "src/sequencer.rs", "src/slot.rs"],
     [("return channels", "src/realnet.rs"), ("send_back_past", "src/realseq.rs"), ("return channel", "src/slot.rs")],
     ["instance counts of probe units"], HOOK, SCHED)
prop("C15", "WAV writing succeeds only if every byte was written",
     "Writing or saving a wave as WAV reports success exactly when all bytes of the correct file have been accepted by the stream, through any pattern of short and interrupted writes. After an error, what was written is a prefix of that file.",
     ["fault_sequences", "crash_points", "inputs"], "every pattern of short writes, interruptions, errors and full disks, every wave",
     "Tests write to a healthy file.",
     ["src/write.rs"], [("write_wav16", "src/write.rs"), ("write_wav32", "src/write.rs")],
     ["bytes in the stream", "returned result"], None, "Seeded search over I/O fault sequences against an independent WAV encoder.")
prop("C16", "Audio loading never passes off a failed read as a complete file",
     "Loading through any pattern of short and interrupted reads yields the wave that was stored. If reading fails with an error, loading fails or, at most, yields the stored wave whole; a truncated file yields an error or a prefix of the stored wave, and a wave written as WAV is loaded back with the same rate, channels, length and samples up to the precision of the format.",
     ["fault_sequences", "crash_points", "inputs"], "every pattern of short reads, interruptions, errors and truncation, six sample formats",
     "Tests load a healthy file.",
     ["src/read.rs", "src/write.rs"], [("decode", "src/read.rs")],
     ["loaded Wave", "returned result"], "Wave::load_source behind --cfg fundsp_sim", "Seeded search over I/O fault sequences; the decoder library runs as is.")

UNITS = "Seeded search over units, compositions, calling histories and inputs. Trusts the catalogue (every opcode of the prelude with random parameters) and the host that calls it."
prop("C17", "How time is divided into calls does not change the sound",
     "For every unit and composition of units, static or dynamic, the output for a given input is the same for every division of time into audio calls: ticks, blocks of any size including zero, and any mixture of them, up to rounding. What is in the buffers outside of the block, on the input side or before on the output side, has no influence. The update opcode and the granular synthesizer, which work call by call, are excepted.",
     ["schedules", "inputs", "programs"], "every division into calls, every unit and composition, every input",
     "Tests compare ticks with full blocks for some of the units; sizes not divisible by the vector width, mixtures of ticks and blocks and leftover buffer contents are sampled once or not at all.",
     ["src/audionode.rs", "src/audiounit.rs", "src/combinator.rs", "src/delay.rs", "src/dynamics.rs", "src/envelope.rs", "src/feedback.rs", "src/filter.rs", "src/svf.rs", "src/biquad.rs", "src/biquad_bank.rs", "src/fir.rs", "src/follow.rs", "src/moog.rs", "src/noise.rs", "src/oscillator.rs", "src/oversample.rs", "src/pan.rs", "src/resample.rs", "src/resynth.rs", "src/reverb.rs", "src/rez.rs", "src/shape.rs", "src/wave.rs", "src/wavetable.rs", "src/net.rs", "src/sequencer.rs", "src/slot.rs", "src/shared.rs", "src/buffer.rs"],
     [("process and tick", "src/audionode.rs"), ("process and tick", "src/audiounit.rs")],
     ["output samples"], None,
     UNITS + " Relative tolerance from 1e-4 to 5e-2 depending on the unit, up to 0.3 for compositions with wavetables. Wavetable oscillators are driven at a constant frequency, as they choose their table every few samples.")
prop("C18", "Reset returns every unit to its beginning",
     "After a reset at any point of any history, including one with NaN or infinite input and sample rate changes, a unit sounds exactly as a new one of the same construction at the same sample rate: nothing of the past is left.",
     ["histories", "fault_sequences", "programs"], "every history of calls, faulty input and sample rate changes before the reset, every unit and composition",
     "Tests reset after one fixed history, without faults in the input and mostly at the default sample rate.",
     ["src/audionode.rs", "src/audiounit.rs", "src/combinator.rs", "src/delay.rs", "src/dynamics.rs", "src/envelope.rs", "src/feedback.rs", "src/filter.rs", "src/svf.rs", "src/biquad.rs", "src/noise.rs", "src/oscillator.rs", "src/resample.rs", "src/resynth.rs", "src/reverb.rs", "src/shape.rs", "src/wavetable.rs", "src/net.rs", "src/sequencer.rs", "src/slot.rs"],
     [("reset", "src/audionode.rs"), ("reset", "src/audiounit.rs")],
     ["output samples"], None, UNITS)
prop("C19", "A clone and its original go their own ways",
     "A clone taken at any point continues exactly as a unit with the same past would, and neither the original nor the clone is influenced by what is done with the other afterwards, in whatever order they are called. Shared variables are shared, nothing else is.",
     ["schedules", "histories", "programs"], "every point of cloning, every interleaving of calls to the original and the clone, every unit and composition",
     "Tests do not continue a unit and its clone side by side.",
     ["src/audionode.rs", "src/audiounit.rs", "src/combinator.rs", "src/envelope.rs", "src/net.rs", "src/sequencer.rs", "src/resynth.rs", "src/delay.rs", "src/wavetable.rs"],
     [("Clone", "src/audionode.rs"), ("Clone", "src/audiounit.rs")],
     ["output samples"], None, UNITS)
prop("C20", "Allocating and setting the same sample rate again disturb nothing",
     "At any point of a unit's life, setting the sample rate that is already set, calling allocate, and an audio call of zero samples leave its sound exactly as it would have been.",
     ["schedules", "histories", "programs"], "every placement of such calls in every history, every unit and composition",
     "Tests set the sample rate once, before the first call.",
     ["src/audionode.rs", "src/audiounit.rs", "src/combinator.rs", "src/delay.rs", "src/dynamics.rs", "src/feedback.rs", "src/net.rs", "src/sequencer.rs", "src/slot.rs", "src/resynth.rs", "src/wavetable.rs", "src/reverb.rs"],
     [("set_sample_rate", "src/audionode.rs"), ("allocate", "src/audionode.rs")],
     ["output samples"], None, UNITS)

prop("C21", "The same construction sounds the same in every thread and order",
     "A unit constructed by the same expression always sounds exactly the same, whichever thread constructs and plays it, whatever else has been or is being constructed or played at the same time in other threads, and whether or not it is the first of the process to need a shared table.",
     ["schedules", "programs"], "every interleaving of construction and playing in several threads, every unit and composition",
     "Tests construct everything in one thread; tables that are made when first needed are made before.",
     ["src/wavetable.rs", "src/net.rs", "src/audionode.rs", "src/audiounit.rs", "src/combinator.rs", "src/shared.rs", "src/sequencer.rs"],
     [("global tables", "src/wavetable.rs"), ("ping", "src/audionode.rs"), ("global identifiers", "src/net.rs")],
     ["output samples"], HOOK, UNITS + " Each run is a process of its own.")
prop("C22", "Either half of a live structure may go away at any time",
     "When the frontend of a live Net, Sequencer, Slot, Snoop, Ring or setting listener is dropped, whatever the audio thread is doing, everything it had sent takes effect and the backend plays on as if it were still there. When the backend is dropped, whatever the frontend is doing, the frontend keeps working and reporting its own state correctly. No operation panics, blocks or waits for the other half, and when both are gone every unit has been freed exactly once.",
     ["schedules", "crash_points", "histories"], "every interleaving of operations and audio calls, either half dropped after any number of them",
     "Tests keep both halves until the end.",
     ["src/net.rs", "src/realnet.rs", "src/vertex.rs", "src/sequencer.rs", "src/realseq.rs", "src/slot.rs", "src/snoop.rs", "src/ring.rs", "src/setting.rs"],
     [("commit", "src/net.rs"), ("handle_messages", "src/realnet.rs"), ("handle_messages", "src/realseq.rs"), ("handle_messages", "src/slot.rs")],
     ["output samples", "instance counts", "inspection methods"], HOOK, SCHED)
prop("C23", "Offline rendering gives what live rendering gives",
     "Rendering with Wave::render or Wave::filter, in big blocks through a big block adapter, or sample by sample with the get and filter methods gives the same as audio calls at that sample rate, for any unit, any length and any past of the unit, and the wave has exactly the length, channels and rate asked for. After the end of its input a filter hears silence. The variants that discard latency give the same without the latency that the unit has at that sample rate.",
     ["histories", "inputs", "programs"], "every unit and composition, length, sample rate and earlier use of the unit, every division of the live rendering into calls",
     "Tests render a few units at the default sample rate.",
     ["src/wave.rs", "src/audiounit.rs"], [("render", "src/wave.rs"), ("filter", "src/wave.rs"), ("process_big", "src/audiounit.rs"), ("get_mono", "src/audiounit.rs")],
     ["rendered waves"], None, UNITS + " Tolerances as in C17. The input of control ports does not end before the rendering does. For the variants that discard latency the unit is reset first if it was used before.")
prop("C24", "Live structures nest",
     "The backend of a Net, Sequencer or Slot, a snoop or ring node or a setting listener that is placed as a unit in another live Net (pushed, replaced, crossfaded or faded in, before or after that Net gets its backend), as an event in a live Sequencer, in a Slot, in a static graph, or several of these inside each other, keeps its connection: everything that its own frontend does is heard as it would be outside, whatever is done to the other units of the outer structures, however many commits they make, and also after their control sides are gone. A reset of the outer Net or Slot on the audio side resets it.",
     ["schedules", "histories", "programs"], "every nesting of live structures, every interleaving of operations of the inner and outer frontends with audio calls",
     "No test nests live structures.",
     ["src/net.rs", "src/sequencer.rs", "src/slot.rs", "src/realnet.rs", "src/realseq.rs", "src/vertex.rs"],
     [("commit", "src/net.rs"), ("backend", "src/net.rs"), ("backend", "src/sequencer.rs"), ("migrate", "src/net.rs")],
     ["output samples of the outermost backend"], HOOK, SCHED + " The node of the inner backend itself is left alone: frontend resets and sample rate changes of an outer Net send copies of its units and are documented to disconnect backends.")

prop("C25", "Limiters, followers, envelopes and sample-and-hold keep their bounds and times",
     "However time is divided into calls and whatever resets, clones, allocations and sample rates occur: the output of a limiter with a look-ahead of at least ten samples never exceeds one for any finite input, including its first samples; it is the input delayed by the latency it reports, with one gain for all channels that is never above one or below what the loudest input so far calls for, and that returns to one when the input is quiet. A follower moves halfway to a new level in its response time (attack or release time, also when they are set later), starts at its first input and never overshoots. The ADSR envelope stays in 0...1, is silent until its gate first opens, then rises to one in the attack time, falls to the sustain level in the decay time, stays there, and when the gate closes falls to zero in the release time, up to its control interval. Sample-and-hold shows only samples of its input and holds each for its period within the variability.",
     ["schedules", "inputs", "histories"], "every input signal, gate and step sequence, every division into calls, every placement of resets, clones and rate changes",
     "A test limits one noise signal at one rate from its first full buffer on; there are no tests of the response times or of the envelope.",
     ["src/dynamics.rs", "src/follow.rs", "src/adsr.rs", "src/envelope.rs", "src/noise.rs"],
     [("Limiter", "src/dynamics.rs"), ("Follow", "src/follow.rs"), ("AFollow", "src/follow.rs"), ("adsr_live", "src/adsr.rs"), ("EnvelopeIn", "src/envelope.rs"), ("Hold", "src/noise.rs")],
     ["output samples", "reported latency"], None, UNITS)

prop("C26", "Delays, taps, players, feedback, oscillators and envelopes keep exact time",
     "However time is divided into calls and whatever resets, clones, allocations and sample rates occur, at every sample since the start or the last reset: a delay gives its input the rounded number of samples ago; a tap reads the interpolated input at its delay time limited to its range, with silence before the start; a wave player plays from its start point to its end point and on from its loop point; a resampler plays its node at the sum of the speeds so far; feedback loops, feedback delay networks, nested allpasses, FIR filters and biquads give their difference equations; oscillators have their initial phase plus the sum of frequencies times the sample duration; envelopes of time follow their function in seconds; a declicker fades in over its time; a resynthesizer that copies its input reconstructs it exactly one window later and tells its function the time of each window; peak and RMS meters decay with their timescale; the update function of a system is called at time zero and whenever its interval has passed at the beginning of a call, with the time and the time since its last call.",
     ["schedules", "inputs", "histories"], "every unit of this kind with every parameter and input, every division into calls, every placement of resets, clones and rate changes",
     "Tests compare ticks with blocks at one setting; none compares with the definition over a history.",
     ["src/delay.rs", "src/feedback.rs", "src/wave.rs", "src/resample.rs", "src/fir.rs", "src/biquad.rs", "src/oscillator.rs", "src/envelope.rs", "src/dynamics.rs", "src/resynth.rs"],
     [("Delay", "src/delay.rs"), ("Tap", "src/delay.rs"), ("TapLinear", "src/delay.rs"), ("FeedbackUnit", "src/feedback.rs"), ("Feedback", "src/feedback.rs"), ("WavePlayer", "src/wave.rs"), ("Resampler", "src/resample.rs"), ("Resynth", "src/resynth.rs")],
     ["output samples"], None, UNITS)

prop("C27", "A setting makes a unit the one its parameters describe",
     "For every opcode with settings: once a documented setting is applied, directly, through a listener or through the frontend of a live Net, and at whatever address of up to four levels the unit has in a structure, the unit sounds as if it had been constructed with the new parameters - at once if it has made no sound yet or is then reset, before or after any change of sample rate, and as soon as its memory of the past has faded if it is running. Parameters that a setting does not name keep their values. A setting with the values the unit has already, of a kind the unit does not have, or for an address that is not there changes nothing, and a setting changes only the unit it is addressed to: not its neighbours, its clones or its original. Setter methods do the same as settings. Phases and seeds count from the next reset, and the same seed gives the same noise anywhere; an envelope samples its function at the interval set, and a filter reads its controls once every subsampling period.",
     ["histories", "schedules", "inputs"], "every unit, setting, address, division into calls, placement of the setting among calls, resets, clones and rate changes",
     "Tests apply one setting to one node; none compares with the unit constructed so.",
     ["src/setting.rs", "src/svf.rs", "src/biquad.rs", "src/biquad_bank.rs", "src/filter.rs", "src/follow.rs", "src/audionode.rs", "src/net.rs", "src/oscillator.rs", "src/noise.rs", "src/envelope.rs"],
     [("Setting", "src/setting.rs"), ("FixedSvf::set", "src/svf.rs"), ("Resonator::set", "src/biquad.rs"), ("Follow::set", "src/follow.rs"), ("MultiBus::set", "src/audionode.rs"), ("Net::set", "src/net.rs")],
     ["output samples"], None, UNITS)

na("C90", "Frequency responses equal what is measured",
   "The response reported for a graph equals the transfer function of the audio it processes.",
   "every graph and frequency", "Responses are compared with measurements for a list of filters.",
   ["src/signal.rs", "src/audionode.rs"], [("route", "src/audionode.rs")],
   "A pure function of the graph: no schedule, clock, I/O or fault takes part.")
na("C91", "Mathematical and easing functions meet their definitions",
   "Each function in the math module equals its mathematical definition over its domain.",
   "every argument", "Samples of arguments are tested.",
   ["src/math.rs"], [("functions", "src/math.rs")],
   "Pure functions of their arguments: nothing for a simulator to control.")
na("C92", "Operators on static graphs obey the algebra of channel counts and values",
   "Each graph operator combines channels and values as documented.",
   "every expression", "A list of expressions is tested.",
   ["src/combinator.rs", "src/audionode.rs"], [("operators", "src/combinator.rs")],
   "A pure function of the expression and its inputs (its dependence on the division of time into audio calls is claimed elsewhere).")
na("C93", "Wave editing operations are exact",
   "Slicing, mixing, appending, retaining, filtering and normalising a wave change exactly the samples they name.",
   "every wave and range", "A few waves are tested.",
   ["src/wave.rs"], [("Wave", "src/wave.rs")],
   "Pure functions of a single-threaded value.")
na("C94", "The Fourier transform is accurate and invertible",
   "The forward and inverse transforms are inverse to each other within rounding.",
   "every length and signal", "A few lengths are tested.",
   ["src/fft.rs"], [("fft", "src/fft.rs")],
   "Pure functions of their input.")

exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None
P.sort(key=lambda p: p["id"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P + N:
        q = {k: v for k, v in p.items() if k not in ("level_note", "reason")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("sim:")]
manifest = dict(
    version=1, setup_cmd="bash check.sh build",
    hooks=dict(guard="--cfg fundsp_sim", enable="RUSTFLAGS='--cfg fundsp_sim' (set by check.sh)", source_commits=hooks[::-1]),
    checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
                 technique="deterministic simulation with fault injection", level="exploration", level_note=p["level_note"]) for p in P],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in N],
    notes="One simulator, sim/, decides every property; see DESIGN.md.")
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
