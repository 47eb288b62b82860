//! The explorer: walks every member of every space of a property, runs the real library and the
//! property's oracle on it, and reports the first (smallest) violation with a replay file.
//!
//! Layout: `run` (supervisor) starts `work` (worker process, all cores). The worker publishes what each
//! thread is doing in a shared file, so that when the library kills the process (abort, stack overflow,
//! stray memory access) or does not come back, the supervisor knows which input did it, confirms that
//! in a separate process and reports it.
use crate::gen::{Fast, G};
use crate::sys;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Verdict {
    pub bad: Option<String>,
    /// fingerprint of what the library answered
    pub outcome: u64,
    /// index into CLASSES
    pub class: u8,
}
pub const CLASSES: [&str; 6] = ["rejected", "accepted", "duplicate", "missing", "equal", "other"];

pub type Check = Arc<dyn Fn(&mut Ctx, &[u8]) -> Verdict + Send + Sync>;

pub struct Space {
    pub name: String,
    pub g: G,
    pub check: Check,
}
pub fn space(name: impl Into<String>, g: G, check: &Check) -> Space {
    Space { name: name.into(), g, check: check.clone() }
}

#[repr(C)]
pub struct Slot {
    space: AtomicU64,
    index: AtomicU64,
    /// 0: not in the library, otherwise milliseconds (+1) at which the library was entered
    since: AtomicU64,
    /// the thread, to ask the system how long it has really run
    thread: AtomicU64,
    _pad: [u64; 4],
}

/// What a check may use.
pub struct Ctx {
    pub guard: sys::Guarded,
    slot: *const Slot,
    epoch: Instant,
    thread: u64,
    pub execs: u64,
    pub models: u64,
}
impl Ctx {
    pub fn new(slot: *const Slot, epoch: Instant) -> Ctx {
        Ctx { guard: sys::Guarded::new(8 << 20), slot, epoch, thread: sys::thread_id(), execs: 0, models: 0 }
    }
    /// Runs code of the library: a panic comes back as an error, the supervisor times it.
    pub fn imp<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.execs += 1;
        unsafe { (*self.slot).thread.store(self.thread, Relaxed) };
        unsafe { (*self.slot).since.store(self.epoch.elapsed().as_millis() as u64 + 1, Relaxed) };
        let r = catch_unwind(AssertUnwindSafe(f));
        unsafe { (*self.slot).since.store(0, Relaxed) };
        r.map_err(|e| {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            format!("the library panicked: {}", m)
        })
    }
    pub fn model<R>(&mut self, f: impl FnOnce() -> R) -> R {
        self.models += 1;
        f()
    }
}

#[derive(Default)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        let mut h = self.0 ^ 0xcbf29ce484222325;
        for c in b {
            h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
        }
        self.0 = h;
    }
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^ x >> 32
    }
}
pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}
/// Counts distinct 64-bit fingerprints from below (two that share a bit count once).
struct Bits(Vec<AtomicU64>);
impl Bits {
    fn new(log2: u32) -> Bits {
        let n = 1usize << (log2 - 6);
        let v: Vec<u64> = vec![0; n];
        // AtomicU64 has the layout of u64; going through a zeroed vector keeps the pages untouched
        let mut v = std::mem::ManuallyDrop::new(v);
        Bits(unsafe { Vec::from_raw_parts(v.as_mut_ptr() as *mut AtomicU64, v.len(), v.capacity()) })
    }
    fn add(&self, h: u64) -> bool {
        let bits = self.0.len() as u64 * 64;
        let b = h % bits;
        let m = 1u64 << (b & 63);
        self.0[(b >> 6) as usize].fetch_or(m, Relaxed) & m == 0
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{:02x}", c)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn show(b: &[u8]) -> String {
    let cut = 600;
    let s: String = b.iter().take(cut).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > cut {
        format!("{}... ({} bytes)", s, b.len())
    } else {
        s
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Found {
    space: usize,
    index: u64,
    input: Vec<u8>,
    message: String,
}

const SLOTS: usize = 64;
fn open_slots(path: &str, create: bool) -> *const Slot {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("slots file");
    f.set_len((SLOTS * 64) as u64).unwrap();
    sys::shared_file(&f, SLOTS * 64) as *const Slot
}

pub struct Args {
    pub prop: String,
    pub tier: String,
    pub config: String,
    pub out: String,
    pub replay: String,
    pub threads: usize,
    pub cap_s: u64,
    pub only: Option<String>,
}

/// The worker: explores all spaces. Exit code 0 nothing found, 1 violation (written to `out`), 3 engine error.
pub fn work(a: &Args, spaces: Vec<Space>, slots: &str) -> i32 {
    sys::limits();
    std::panic::set_hook(Box::new(|_| ()));
    #[cfg(feature = "sched")]
    crate::sched::start_copies(a.threads + 1);
    let slots = open_slots(slots, false) as usize;
    let epoch = Instant::now();
    let seen = Bits::new(31);
    let outcomes = Bits::new(24);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let engine_error: Mutex<Option<String>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let mut report = Vec::new();
    let (mut distinct, mut total_execs, mut total_models, mut distinct_out) = (0u64, 0u64, 0u64, 0u64);
    let mut total = 0u64;
    let mut samples: Vec<String> = Vec::new();
    for (sid, sp) in spaces.iter().enumerate() {
        if stop.load(SeqCst) {
            break;
        }
        let t0 = Instant::now();
        let fast = Fast::new(&sp.g);
        let n = fast.n;
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let chunk = (n / (a.threads as u64 * 64)).clamp(1, 2048);
        let stats: Mutex<(u64, u64, u64, u64, [u64; 6])> = Mutex::new((0, 0, 0, 0, [0; 6]));
        std::thread::scope(|sc| {
            for th in 0..a.threads {
                let (fast, next, done, stats, seen, outcomes, found, stop, capped, engine_error) =
                    (&fast, &next, &done, &stats, &seen, &outcomes, &found, &stop, &capped, &engine_error);
                std::thread::Builder::new()
                    .spawn_scoped(sc, move || {
                        let slot = unsafe { &*(slots as *const Slot).add(th) };
                        let mut ctx = Ctx::new(slot, epoch);
                        let mut buf = Vec::new();
                        let (mut d, mut dout, mut cls) = (0u64, 0u64, [0u64; 6]);
                        'all: loop {
                            let s = next.fetch_add(chunk, SeqCst);
                            if s >= n || stop.load(Relaxed) {
                                break;
                            }
                            if epoch.elapsed() > Duration::from_secs(a.cap_s) {
                                capped.store(true, SeqCst);
                                break;
                            }
                            for i in s..(s + chunk).min(n) {
                                buf.clear();
                                fast.put(i, &mut buf);
                                slot.space.store(sid as u64, Relaxed);
                                slot.index.store(i, Relaxed);
                                let r = catch_unwind(AssertUnwindSafe(|| (sp.check)(&mut ctx, &buf)));
                                let v = match r {
                                    Ok(v) => v,
                                    Err(e) => {
                                        let m = e
                                            .downcast_ref::<String>()
                                            .cloned()
                                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                            .unwrap_or_default();
                                        *engine_error.lock().unwrap() =
                                            Some(format!("oracle panicked in {} on {}: {}", sp.name, show(&buf), m));
                                        stop.store(true, SeqCst);
                                        break 'all;
                                    }
                                };
                                done.fetch_add(1, Relaxed);
                                if seen.add(fp(&buf[..])) {
                                    d += 1;
                                }
                                if outcomes.add(v.outcome) {
                                    dout += 1;
                                }
                                cls[v.class as usize] += 1;
                                if let Some(message) = v.bad {
                                    let mut f = found.lock().unwrap();
                                    f.push(Found { space: sid, index: i, input: buf.clone(), message });
                                    if f.len() >= 40 {
                                        stop.store(true, SeqCst);
                                    }
                                }
                            }
                        }
                        let mut s = stats.lock().unwrap();
                        s.0 += d;
                        s.1 += dout;
                        s.2 += ctx.execs;
                        s.3 += ctx.models;
                        for k in 0..6 {
                            s.4[k] += cls[k];
                        }
                    })
                    .unwrap();
            }
        });
        if !found.lock().unwrap().is_empty() {
            stop.store(true, SeqCst);
        }
        let s = stats.into_inner().unwrap();
        let done = done.load(SeqCst);
        distinct += s.0;
        distinct_out += s.1;
        total_execs += s.2;
        total_models += s.3;
        total += done;
        let classes: Vec<String> = (0..6)
            .filter(|k| s.4[*k] > 0)
            .map(|k| format!("{}:{}", jstr(CLASSES[k]), s.4[k]))
            .collect();
        report.push(format!(
            "{{\"space\":{},\"size\":{},\"explored\":{},\"distinct_inputs\":{},\"new_outcomes\":{},\"library_calls\":{},\"classes\":{{{}}},\"seconds\":{:.2}}}",
            jstr(&sp.name), n, done, s.0, s.1, s.2, classes.join(","), t0.elapsed().as_secs_f64()
        ));
        // three members of the space, written out
        for i in [n / 3, n / 2, n.saturating_sub(1)] {
            if n > 0 && samples.len() < 60 {
                let mut b = Vec::new();
                fast.put(i, &mut b);
                samples.push(format!("{}[{}]: {}", sp.name, i, show(&b)));
            }
        }
        if a.only.is_some() {
            eprintln!("{}", report.last().unwrap());
        }
    }
    if let Some(e) = engine_error.into_inner().unwrap() {
        eprintln!("ENGINE ERROR: {}", e);
        return 3;
    }
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| (f.space, f.input.len(), f.index));
    let nviol = found.len();
    let mut code = 0;
    if let Some(f) = found.into_iter().next() {
        let slot = slots as *const Slot;
        let mut ctx = Ctx::new(slot, epoch);
        let sp = &spaces[f.space];
        let (input, message) = shrink(&mut ctx, &sp.check, f.input, f.message);
        write_replay(a, sp, f.space, f.index, &input, &message);
        code = 1;
    }
    let json = format!(
        "{{\"config\":{},\"states\":{},\"transitions\":{},\"validated\":{},\"inputs\":{},\"distinct_outcomes\":{},\"capped\":{},\"violations\":{},\"wall_s\":{:.2},\"spaces\":[{}],\"samples\":[{}]}}",
        jstr(&a.config), distinct, total_execs, total_models, total, distinct_out, capped.load(SeqCst), nviol,
        epoch.elapsed().as_secs_f64(), report.join(","),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    );
    std::fs::write(&a.out, json).unwrap();
    code
}

fn shrink(ctx: &mut Ctx, check: &Check, mut best: Vec<u8>, mut msg: String) -> (Vec<u8>, String) {
    let mut budget = 6000;
    // a smaller input counts when it is wrong in the same way; "a plain message" is about that input only
    let plain = msg.starts_with("a plain message");
    let kind: String = msg.chars().take(12).collect();
    let t0 = Instant::now();
    let mut try_ = |c: &[u8], msg: &mut String| -> bool {
        if plain || budget == 0 || t0.elapsed() > Duration::from_secs(20) {
            return false;
        }
        budget -= 1;
        match catch_unwind(AssertUnwindSafe(|| (check)(ctx, c))) {
            Ok(Verdict { bad: Some(m), .. }) if m.starts_with(&kind) => {
                *msg = m;
                true
            }
            _ => false,
        }
    };
    let mut size = best.len() / 2;
    while size > 0 {
        let mut p = 0;
        while p < best.len() {
            let e = (p + size).min(best.len());
            let mut c = best.clone();
            c.drain(p..e);
            if try_(&c, &mut msg) {
                best = c;
            } else {
                p += size;
            }
        }
        size /= 2;
    }
    (best, msg)
}

fn write_replay(a: &Args, sp: &Space, sid: usize, index: u64, input: &[u8], message: &str) {
    // the input of the other checks of C23 is a history, a schedule or a place
    let as_test = if a.prop == "C23" && !sp.name.starts_with("two readings") { String::new() } else {
        format!(
            "\nAs a test: let input: &[u8] = b\"{}\"; compare the library's answer on it with the expected one above\n(email_parser::prelude::Email::parse(input), and mime_entity.parse() where entities are shown).\n",
            input.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).take(4000).collect::<String>()
        )
    };
    let t = format!(
        "property: {}\nconfig: {}\ntier: {}\nspace: {} (#{})\nindex: {}\ninput_hex: {}\ninput: b\"{}\"\n\n{}\n{}",
        a.prop, a.config, a.tier, sp.name, sid, index, hex(input), show(input), message,
        as_test
    );
    std::fs::write(&a.replay, &t).unwrap();
    eprintln!("{}", t);
}

/// One member in this very process; exit code 0 holds, 1 violated; may die.
pub fn one(spaces: Vec<Space>, sid: usize, index: u64) -> i32 {
    sys::limits();
    let sp = &spaces[sid];
    let mut b = Vec::new();
    Fast::new(&sp.g).put(index, &mut b);
    on_input(sp, &b)
}
pub fn on_input(sp: &Space, b: &[u8]) -> i32 {
    #[cfg(feature = "sched")]
    crate::sched::start_copies(1);
    let slot = Box::leak(Box::new(Slot { space: 0.into(), index: 0.into(), since: 0.into(), thread: 0.into(), _pad: [0; 4] }));
    let check = sp.check.clone();
    let b = b.to_vec();
    let slot_addr = slot as *const Slot as usize;
    // same stack size as the worker's threads
    std::thread::spawn(move || {
        let mut ctx = Ctx::new(slot_addr as *const Slot, Instant::now());
        let v = (check)(&mut ctx, &b);
        match v.bad {
            Some(m) => {
                println!("violated: {}", m);
                1
            }
            None => {
                println!("holds");
                0
            }
        }
    })
    .join()
    .unwrap_or(3)
}

/// The supervisor. Exit code 0 held, 1 violated (replay file written), anything else: no verdict.
pub fn run(a: &Args, spaces: Vec<Space>) -> i32 {
    let slots_path = format!("{}.slots", a.out);
    let _ = std::fs::remove_file(&slots_path);
    let slots = open_slots(&slots_path, true);
    let exe = std::env::current_exe().unwrap();
    let base: Vec<String> = std::env::args().skip(2).collect();
    let _ = std::fs::remove_file(&a.out);
    let t0 = Instant::now();
    let mut child = std::process::Command::new(&exe)
        .arg("work")
        .args(&base)
        .arg("--slots")
        .arg(&slots_path)
        .spawn()
        .expect("worker");
    // progress marks: (space, index, since) and when we first saw them
    let mut marks: Vec<((u64, u64, u64), Instant, f64)> = vec![((0, 0, 0), Instant::now(), 0.0); SLOTS];
    let pid = child.id();
    let ran = |k: usize| sys::cpu_seconds(&format!("/proc/{}/task/{}/stat", pid, unsafe { &*slots.add(k) }.thread.load(SeqCst)));
    let slot = |k: usize| unsafe { &*slots.add(k) };
    let mut suspects: Vec<(u64, u64)> = Vec::new();
    let died;
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            match st.code() {
                Some(c @ (0 | 1 | 3)) => {
                    let _ = std::fs::remove_file(&slots_path);
                    return c;
                }
                _ => {
                    died = format!("{}", st);
                    for k in 0..a.threads {
                        if slot(k).since.load(SeqCst) != 0 {
                            suspects.push((slot(k).space.load(SeqCst), slot(k).index.load(SeqCst)));
                        }
                    }
                    break;
                }
            }
        }
        for k in 0..a.threads {
            let m = (slot(k).space.load(SeqCst), slot(k).index.load(SeqCst), slot(k).since.load(SeqCst));
            if marks[k].0 != m {
                marks[k] = (m, Instant::now(), -1.0);
            } else if m.2 != 0 {
                let wall = marks[k].1.elapsed().as_secs_f64();
                if marks[k].2 < 0.0 && wall > 1.0 {
                    marks[k].2 = ran(k);
                }
                // a loop uses the processor; whoever waits for something never to come does not
                if wall > HANG_S && (ran(k) - marks[k].2 > HANG_S - 1.0 || wall > 8.0 * HANG_S) {
                    suspects.push((m.0, m.1));
                }
            }
        }
        if !suspects.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            died = format!("no answer within {} s", HANG_S);
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let _ = std::fs::remove_file(&slots_path);
    suspects.sort_by_key(|s| *s);
    suspects.dedup();
    for (sid, index) in &suspects {
        let mut c = std::process::Command::new(&exe)
            .arg("one")
            .args(&base)
            .arg("--sid")
            .arg(sid.to_string())
            .arg("--index")
            .arg(index.to_string())
            .stdout(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let s0 = Instant::now();
        let verdict = loop {
            if let Some(st) = c.try_wait().unwrap() {
                match st.code() {
                    Some(0) => break None,
                    Some(1) => break Some("oracle violated".to_string()),
                    Some(3) => break Some("panicked outside of the guarded call".to_string()),
                    _ => break Some(format!("the process died: {}", st)),
                }
            }
            let wall = s0.elapsed().as_secs_f64();
            if wall > 8.0 * HANG_S || (wall > HANG_S && sys::cpu_seconds(&format!("/proc/{}/stat", c.id())) > HANG_S) {
                let _ = c.kill();
                let _ = c.wait();
                break Some(format!("the library did not return within {} s", HANG_S));
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        if let Some(m) = verdict {
            let sp = &spaces[*sid as usize];
            let mut b = Vec::new();
            Fast::new(&sp.g).put(*index, &mut b);
            write_replay(a, sp, *sid as usize, *index, &b, &format!("on this input {} (in the exploration: {})", m, died));
            let json = format!(
                "{{\"config\":{},\"states\":0,\"transitions\":1,\"validated\":0,\"inputs\":1,\"distinct_outcomes\":0,\"capped\":false,\"violations\":1,\"wall_s\":{:.2},\"spaces\":[],\"samples\":[{}]}}",
                jstr(&a.config), t0.elapsed().as_secs_f64(), jstr(&show(&b))
            );
            std::fs::write(&a.out, json).unwrap();
            return 1;
        }
    }
    eprintln!("ENGINE ERROR: the worker died ({}) and no input reproduces it; suspects {:?}", died, suspects);
    4
}
const HANG_S: f64 = 20.0;
