//! WAV writing and audio file loading, with faults injected into the stream.

use crate::core::*;
use crate::probe::input_at;
use crate::runner::Prop;
use fundsp::prelude::Wave;
use std::io::{Read, Seek, SeekFrom, Write};

fn scratch(name: &str) -> std::path::PathBuf {
    let dir = std::env::var("FSIM_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    dir.join(format!("fsim-{}-{name}", std::process::id()))
}

fn random_wave(max: usize) -> Wave {
    let channels = pick(&[1usize, 2, 2, 3, 5]);
    let rate = pick(&[44100.0, 48000.0, 8000.0, 44100.4, 96000.0, 192000.0]);
    let length = match choose(5) {
        0 => range(1, 8),
        1 => range(0, 3),
        2 => range(1, 300),
        3 => range(1, max),
        // Around the size of internal buffers.
        _ => (8192 - 44) / (2 * channels) + range(0, 4),
    };
    let seed = choose(1000);
    let loud = chance(1, 3);
    let mut w = Wave::new(channels, rate);
    for i in 0..length {
        for c in 0..channels {
            let x = input_at(c, seed * 1_000_000 + i as u64);
            let x = if loud { x * 1.5 } else { x };
            let x = match i {
                3 => 1.0,
                4 => -1.0,
                5 => 0.0,
                _ => x,
            };
            if c == 0 {
                if channels == 1 {
                    w.push(x);
                } else {
                    w.push(0.0f32);
                    w.set(0, i, x);
                }
            } else {
                w.set(c, i, x);
            }
        }
    }
    w
}

fn u32le(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}
fn u16le(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}

/// Is `b` the canonical WAV file of `w`?
fn wav_error(b: &[u8], w: &Wave, float: bool) -> Option<String> {
    let size = if float { 4 } else { 2 };
    let data = size * w.channels() * w.length();
    if b.len() != 44 + data {
        return Some(format!("{} bytes were written, expected {}", b.len(), 44 + data));
    }
    let rate = w.sample_rate().round() as u32;
    let ok = &b[0..4] == b"RIFF"
        && u32le(b, 4) as usize == data + 36
        && &b[8..12] == b"WAVE"
        && &b[12..16] == b"fmt "
        && u32le(b, 16) == 16
        && u16le(b, 20) == if float { 3 } else { 1 }
        && u16le(b, 22) as usize == w.channels()
        && u32le(b, 24) == rate
        && u32le(b, 28) == rate * (w.channels() * size) as u32
        && u16le(b, 32) as usize == w.channels() * size
        && u16le(b, 34) as usize == 8 * size
        && &b[36..40] == b"data"
        && u32le(b, 40) as usize == data;
    if !ok {
        return Some(format!("header is wrong: {:?}", &b[..44]));
    }
    for i in 0..w.length() {
        for c in 0..w.channels() {
            let p = 44 + size * (i * w.channels() + c);
            let x = w.at(c, i);
            if float {
                if f32::from_bits(u32le(b, p)) != x {
                    return Some(format!("channel {c} sample {i} is {}, expected {x}", f32::from_bits(u32le(b, p))));
                }
            } else {
                let s = u16le(b, p) as i16 as f64;
                let e = (x as f64).clamp(-1.0, 1.0) * 32767.0;
                if (s - e).abs() > 1.0 {
                    return Some(format!("channel {c} sample {i} is {s}, expected {e}"));
                }
            }
        }
    }
    None
}

/// A writer that takes as much as it likes and fails when the run says so.
struct FaultyWriter {
    got: Vec<u8>,
    /// Fail for good once this many bytes have been taken.
    full: Option<usize>,
    kind: std::io::ErrorKind,
    zero: bool,
    short: bool,
    interrupts: bool,
    transient: bool,
    failed: bool,
    interrupted: u32,
}

impl Write for FaultyWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.interrupted < 20 && chance(1, 5) {
            self.interrupted += 1;
            count("fault: interrupted write");
            trace!("write of {} bytes is interrupted", buf.len());
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if self.short && n > 1 && chance(1, 2) {
            n = range(1, std::cmp::min(n - 1, 5000));
            count("fault: short write");
        }
        if let Some(full) = self.full {
            if self.got.len() >= full && !(self.transient && self.failed) {
                self.failed = true;
                trace!("write of {} bytes fails", buf.len());
                if self.zero {
                    count("fault: write of zero bytes");
                    return Ok(0);
                }
                count("fault: write error");
                return Err(self.kind.into());
            }
            if !self.failed {
                n = std::cmp::min(n, full - self.got.len());
            }
        }
        trace!("write takes {n} of {} bytes", buf.len());
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c15() {
    let class = "C15/write";
    let w = random_wave(9000);
    let float = chance(1, 2);
    let size = if float { 4 } else { 2 };
    let total = 44 + size * w.channels() * w.length();
    trace!("{} channels, {} samples, {} Hz, {}", w.channels(), w.length(), w.sample_rate(), if float { "float" } else { "16-bit" });
    event(total as u64);
    if chance(1, 24) {
        // Real files.
        let path = match choose(4) {
            0 => std::path::PathBuf::from("/dev/full"),
            1 => scratch("missing-directory").join("x.wav"),
            _ => scratch("w.wav"),
        };
        let device = path.starts_with("/dev/full");
        let missing = path.ends_with("x.wav");
        if !device && !missing && chance(1, 2) {
            // There is already a longer file.
            std::fs::write(&path, vec![0xffu8; total + 1000]).unwrap();
            count("save over an existing file");
        }
        let r = if float { w.save_wav32(&path) } else { w.save_wav16(&path) };
        let bytes = if !device && !missing { std::fs::read(&path).ok() } else { None };
        if !device && !missing {
            let _ = std::fs::remove_file(&path);
        }
        if device {
            count("fault: disk full");
            if r.is_ok() {
                violate(class, "saving to a full disk was reported as a success".into());
            }
        } else if missing {
            count("fault: missing directory");
            if r.is_ok() {
                violate(class, "saving to a directory that does not exist was reported as a success".into());
            }
        } else {
            if let Err(e) = r {
                violate(class, format!("saving failed: {e}"));
            }
            if let Some(why) = wav_error(&bytes.unwrap(), &w, float) {
                violate(class, format!("saved file is wrong: {why}"));
            }
            count("file saved");
        }
        nontrivial();
        return;
    }
    let full = match choose(4) {
        0 => Some(range(0, total)),
        1 => Some(std::cmp::max(total, 8192) - range(1, 44)),
        2 => None,
        _ => Some(range(0, std::cmp::min(total, 60))),
    };
    let full = if let Some(f) = full { if f >= total { None } else { Some(f) } } else { None };
    let mut out = FaultyWriter {
        got: vec![],
        full,
        kind: pick(&[
            std::io::ErrorKind::StorageFull,
            std::io::ErrorKind::BrokenPipe,
            std::io::ErrorKind::Other,
            std::io::ErrorKind::WouldBlock,
        ]),
        zero: chance(1, 5),
        short: chance(1, 2),
        interrupts: chance(1, 3),
        transient: chance(1, 4),
        failed: false,
        interrupted: 0,
    };
    let r = if float { w.write_wav32(&mut out) } else { w.write_wav16(&mut out) };
    trace!("returned {:?} after {} bytes", r.as_ref().map_err(|e| e.kind()), out.got.len());
    event(out.got.len() as u64);
    event(r.is_ok() as u64);
    let mut whole = vec![];
    let r0 = if float { w.write_wav32(&mut whole) } else { w.write_wav16(&mut whole) };
    if r0.is_err() {
        violate(class, "writing to memory failed".into());
    }
    if let Some(why) = wav_error(&whole, &w, float) {
        violate(class, format!("file is wrong: {why}"));
    }
    if r.is_ok() && out.failed {
        violate(class, format!("success was reported, but the stream failed and only {} of {total} bytes were taken", out.got.len()));
    }
    if r.is_ok() && out.got != whole {
        violate(class, format!("success was reported, but {} of {total} bytes were written correctly", out.got.iter().zip(&whole).take_while(|(a, b)| a == b).count()));
    }
    if r.is_err() && !out.failed {
        violate(class, format!("an error was reported although the stream did not fail: {:?}", r.err()));
    }
    if out.got.len() > whole.len() || out.got[..] != whole[..out.got.len()] {
        violate(class, "what was written is not the beginning of the file".into());
    }
    if out.failed || out.short || out.interrupts {
        nontrivial();
    }
}

// ---------------------------------------------------------------------------------------------
// Loading.

#[derive(Clone, Copy, PartialEq, Debug)]
enum Format {
    U8,
    S16,
    S24,
    S32,
    F32,
    F64,
}

/// An encoder of our own.
fn encode(w: &Wave, f: Format, extra: bool) -> (Vec<u8>, Vec<Vec<f64>>, f64) {
    let size = match f {
        Format::U8 => 1,
        Format::S16 => 2,
        Format::S24 => 3,
        Format::S32 | Format::F32 => 4,
        Format::F64 => 8,
    };
    let ch = w.channels();
    let data = size * ch * w.length();
    let pad = data % 2;
    let mut b: Vec<u8> = vec![];
    let rate = w.sample_rate().round() as u32;
    b.extend(b"RIFF");
    let list: &[u8] = if extra { b"LIST\x04\x00\x00\x00INFO" } else { b"" };
    b.extend(((data + pad + 36 + list.len()) as u32).to_le_bytes());
    b.extend(b"WAVEfmt ");
    b.extend(16u32.to_le_bytes());
    b.extend((if matches!(f, Format::F32 | Format::F64) { 3u16 } else { 1 }).to_le_bytes());
    b.extend((ch as u16).to_le_bytes());
    b.extend(rate.to_le_bytes());
    b.extend((rate * (ch * size) as u32).to_le_bytes());
    b.extend(((ch * size) as u16).to_le_bytes());
    b.extend(((8 * size) as u16).to_le_bytes());
    b.extend(list);
    b.extend(b"data");
    b.extend((data as u32).to_le_bytes());
    let mut expect = vec![vec![]; ch];
    let mut tolerance: f64 = 0.0;
    for i in 0..w.length() {
        for c in 0..ch {
            let x = (w.at(c, i) as f64).clamp(-1.0, 1.0);
            match f {
                Format::U8 => {
                    let v = (x * 127.0).round() as i32;
                    b.push((v + 128) as u8);
                    expect[c].push(v as f64 / 128.0);
                    tolerance = 1.0e-6;
                }
                Format::S16 => {
                    let v = (x * 32767.0).round() as i16;
                    b.extend(v.to_le_bytes());
                    expect[c].push(v as f64 / 32768.0);
                    tolerance = 1.0e-6;
                }
                Format::S24 => {
                    let v = (x * 8388607.0).round() as i32;
                    b.extend(&v.to_le_bytes()[..3]);
                    expect[c].push(v as f64 / 8388608.0);
                    tolerance = 1.0e-6;
                }
                Format::S32 => {
                    let v = (x * 2147483647.0).round() as i32;
                    b.extend(v.to_le_bytes());
                    expect[c].push(v as f64 / 2147483648.0);
                    tolerance = 1.0e-6;
                }
                Format::F32 => {
                    b.extend((w.at(c, i)).to_le_bytes());
                    expect[c].push(w.at(c, i) as f64);
                }
                Format::F64 => {
                    b.extend((w.at(c, i) as f64).to_le_bytes());
                    expect[c].push(w.at(c, i) as f64);
                    tolerance = 1.0e-6;
                }
            }
        }
    }
    if pad > 0 {
        b.push(0);
    }
    (b, expect, tolerance)
}

struct FaultySource {
    bytes: Vec<u8>,
    pos: u64,
    seekable: bool,
    known_length: bool,
    short: bool,
    /// Reads that reach this position fail.
    bad: Option<u64>,
    kind: std::io::ErrorKind,
    /// The failure goes away after the first time.
    transient: bool,
    interrupts: bool,
    hit: std::sync::Arc<std::sync::atomic::AtomicU32>,
}

impl Read for FaultySource {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        use std::sync::atomic::Ordering::Relaxed;
        let left = self.bytes.len() as u64 - std::cmp::min(self.pos, self.bytes.len() as u64);
        let mut n = std::cmp::min(buf.len() as u64, left) as usize;
        if self.interrupts && chance(1, 12) {
            count("fault: interrupted read");
            self.hit.fetch_or(2, Relaxed);
            trace!("read at {} is interrupted", self.pos);
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.short && n > 1 && chance(2, 3) {
            n = range(1, n);
            count("fault: short read");
        }
        if let Some(bad) = self.bad {
            let fired = self.hit.load(Relaxed) & 1 != 0;
            if !(self.transient && fired) {
                if self.pos >= bad {
                    self.hit.fetch_or(1, Relaxed);
                    count("fault: read error");
                    trace!("read at {} fails", self.pos);
                    return Err(self.kind.into());
                }
                n = std::cmp::min(n as u64, bad - self.pos) as usize;
            }
        }
        trace!("read at {} gives {n} of {}", self.pos, buf.len());
        buf[..n].copy_from_slice(&self.bytes[self.pos as usize..self.pos as usize + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for FaultySource {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let to = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::End(x) => self.bytes.len() as i64 + x,
            SeekFrom::Current(x) => self.pos as i64 + x,
        };
        if !self.seekable || to < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = to as u64;
        Ok(self.pos)
    }
}

impl symphonia::core::io::MediaSource for FaultySource {
    fn is_seekable(&self) -> bool {
        self.seekable
    }
    fn byte_len(&self) -> Option<u64> {
        if self.known_length {
            Some(self.bytes.len() as u64)
        } else {
            None
        }
    }
}

fn differs(w: &Wave, expect: &[Vec<f64>], tolerance: f64, rate: f64, whole: bool) -> Option<String> {
    if w.channels() != expect.len() {
        return Some(format!("{} channels, expected {}", w.channels(), expect.len()));
    }
    if w.sample_rate() != rate {
        return Some(format!("sample rate {}, expected {rate}", w.sample_rate()));
    }
    let n = expect[0].len();
    if whole && w.length() != n {
        return Some(format!("{} samples, expected {n}", w.length()));
    }
    if w.length() > n {
        return Some(format!("{} samples, but the file has only {n}", w.length()));
    }
    for c in 0..expect.len() {
        if w.channel(c).len() != w.length() {
            return Some("channels differ in length".into());
        }
        for i in 0..w.length() {
            if (w.at(c, i) as f64 - expect[c][i]).abs() > tolerance {
                return Some(format!("channel {c} sample {i} is {}, expected {}", w.at(c, i), expect[c][i]));
            }
        }
    }
    None
}

fn c16() {
    let class = "C16/load";
    let mut w = random_wave(6000);
    while w.length() < 1 {
        w = random_wave(6000);
    }
    let f = pick(&[Format::S16, Format::F32, Format::U8, Format::S24, Format::S32, Format::F64]);
    // With more than two channels the plain format header is ambiguous.
    if w.channels() > 2 {
        let mut v = Wave::new(0, w.sample_rate());
        v.push_channel(w.channel(0));
        v.push_channel(w.channel(1));
        w = v;
    }
    let (bytes, expect, tolerance) = encode(&w, f, chance(1, 3));
    let rate = w.sample_rate().round();
    let total = bytes.len();
    trace!("{f:?} {} channels {} samples, {total} bytes", w.channels(), w.length());
    event(total as u64);
    let track = pick(&[None, None, Some(0usize), Some(7)]);
    match choose(6) {
        0 => {
            // From memory, or from a file.
            let r = if chance(1, 6) {
                let p = scratch("r.wav");
                std::fs::write(&p, &bytes).unwrap();
                let r = Wave::load_track(&p, track);
                let _ = std::fs::remove_file(&p);
                count("file loaded");
                r
            } else {
                Wave::load_slice_track(bytes.clone(), track)
            };
            match r {
                Err(e) => violate(class, format!("loading failed: {e}")),
                Ok(v) => {
                    if let Some(why) = differs(&v, &expect, tolerance, rate, true) {
                        violate(class, format!("loaded wave is wrong: {why}"));
                    }
                }
            }
            if Wave::load(scratch("no such file")).is_ok() {
                violate(class, "loaded a file that does not exist".into());
            }
        }
        1 => {
            // Round trip through our own writer.
            let mut out = vec![];
            let float = chance(1, 2);
            if float { w.write_wav32(&mut out) } else { w.write_wav16(&mut out) }.unwrap();
            match Wave::load_slice(out) {
                Err(e) => violate(class, format!("loading what was written failed: {e}")),
                Ok(v) => {
                    let e: Vec<Vec<f64>> = (0..w.channels())
                        .map(|c| w.channel(c).iter().map(|x| if float { *x as f64 } else { x.clamp(-1.0, 1.0) as f64 }).collect())
                        .collect();
                    if let Some(why) = differs(&v, &e, if float { 0.0 } else { 1.0 / 16000.0 }, rate, true) {
                        violate(class, format!("round trip: {why}"));
                    }
                    count("round trip");
                }
            }
        }
        op => {
            let hit = std::sync::Arc::new(std::sync::atomic::AtomicU32::new(0));
            let mut cut = None;
            let mut data = bytes.clone();
            if op == 2 {
                // The end of the file is missing.
                let n = if chance(1, 3) { range(0, std::cmp::min(60, total - 1)) } else { range(0, total - 1) };
                data.truncate(n);
                cut = Some(n);
                count("fault: truncated file");
                trace!("truncated to {n} bytes");
            }
            let bad = if op >= 4 {
                Some(match choose(3) {
                    0 => range(0, std::cmp::min(60, total - 1)) as u64,
                    1 => range(0, total - 1) as u64,
                    _ => (total - 1 - range(0, std::cmp::min(total - 1, 200))) as u64,
                })
            } else {
                None
            };
            let source = FaultySource {
                bytes: data,
                pos: 0,
                seekable: chance(1, 2),
                known_length: chance(1, 2),
                short: chance(1, 2),
                bad,
                kind: pick(&[
                    std::io::ErrorKind::Other,
                    std::io::ErrorKind::PermissionDenied,
                    std::io::ErrorKind::TimedOut,
                    std::io::ErrorKind::ConnectionReset,
                    std::io::ErrorKind::WouldBlock,
                ]),
                transient: chance(1, 3),
                interrupts: chance(1, 6),
                hit: hit.clone(),
            };
            let r = Wave::load_source(Box::new(source), track);
            let hit = hit.load(std::sync::atomic::Ordering::Relaxed);
            event(hit as u64 * 2 + r.is_ok() as u64);
            trace!("load returned {:?}", r.as_ref().map(|w| w.length()).map_err(|e| e.to_string()));
            match r {
                Ok(v) => {
                    // Whatever went wrong, what is returned is what the file says.
                    let whole = cut.is_none();
                    if let Some(why) = differs(&v, &expect, tolerance, rate, whole) {
                        let what = if hit != 0 { "the stream failed, yet loading succeeded with" } else { "loading succeeded with" };
                        violate(class, format!("{what} the wrong content: {why}"));
                    }
                    count("load under faults succeeded");
                }
                Err(e) => {
                    if cut.is_none() && hit == 0 {
                        violate(class, format!("loading failed although nothing went wrong: {e}"));
                    }
                    count("load under faults failed");
                }
            }
        }
    }
    nontrivial();
}

pub fn props() -> Vec<Prop> {
    let p = |id, title, run, rule, real, stub| Prop { id, title, run, fresh: false, rule, real, stub, quick_s: 40.0, thorough_s: 600.0 };
    vec![
        p("C15", "WAV writing under I/O faults", c15, "random waves written to a stream with short writes, interruptions, transient and permanent errors at random positions, and to real files including a full disk; non-trivial: a fault was possible", "Wave, WAV writer, std::io::BufWriter, File", "the byte stream (except for real files)"),
        p("C16", "Audio loading under I/O faults", c16, "random waves in six sample formats loaded through a stream with short reads, interruptions, errors at random positions and truncation; non-trivial: every run", "Wave, loader, Symphonia (real)", "the byte stream (except for real files)"),
    ]
}
