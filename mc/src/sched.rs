//! Threads under control (configurations "work*" only): the library calls `point` at every basic block, where a
//! thread that has used up its turn hands over. A schedule says who runs for how many basic blocks, one thread at a
//! time; every schedule of a space is run.
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::thread::Thread;
use std::time::{Duration, Instant};

const IDLE: u32 = 0;
const RUN: u32 = 1;
const STOPPED: u32 = 2;
const DONE: u32 = 3;
/// A thread that does not come back for so long waits for another one (or is slow: any schedule is a valid one).
const PATIENCE: Duration = Duration::from_millis(50);
/// In a library with locks that happens often; then it is not waited for so long.
const SHORT_PATIENCE: Duration = Duration::from_millis(2);
static WAITS: AtomicU64 = AtomicU64::new(0);

type Job = Box<dyn FnOnce() + Send>;
struct Port {
    state: AtomicU32,
    turn: AtomicU64,
    used: AtomicU64,
    job: Mutex<Option<Job>>,
    controller: Mutex<Option<Thread>>,
}
thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static PORT: Cell<*const Port> = const { Cell::new(std::ptr::null()) };
}
#[inline(always)]
pub fn point() {
    let _ = LEFT.try_with(|l| {
        let n = l.get();
        if n != u64::MAX {
            l.set(n.wrapping_sub(1));
            if n == 0 {
                l.set(u64::MAX);
                hand_over();
            }
        }
    });
}
#[cold]
#[inline(never)]
fn hand_over() {
    let p = PORT.with(|p| p.get());
    if p.is_null() {
        return;
    }
    let p = unsafe { &*p };
    p.state.store(STOPPED, SeqCst);
    wake(p);
    while p.state.load(SeqCst) != RUN {
        std::thread::park();
    }
    take_turn(p);
}
fn take_turn(p: &Port) {
    LEFT.with(|l| l.set(p.turn.load(SeqCst)));
}
fn wake(p: &Port) {
    if let Some(c) = &*p.controller.lock().unwrap() {
        c.unpark();
    }
}

struct Helper {
    port: Arc<Port>,
    thread: Thread,
    handle: Option<std::thread::JoinHandle<()>>,
}
impl Helper {
    fn new() -> Helper {
        let port = Arc::new(Port {
            state: AtomicU32::new(IDLE),
            turn: AtomicU64::new(u64::MAX),
            used: AtomicU64::new(0),
            job: Mutex::new(None),
            controller: Mutex::new(Some(std::thread::current())),
        });
        let p = port.clone();
        let handle = std::thread::spawn(move || {
            PORT.with(|x| x.set(&*p));
            loop {
                while p.state.load(SeqCst) != RUN {
                    std::thread::park();
                }
                let Some(job) = p.job.lock().unwrap().take() else { return };
                let before = crate::work::blocks();
                take_turn(&p);
                job();
                LEFT.with(|l| l.set(u64::MAX));
                p.used.store(crate::work::blocks() - before, SeqCst);
                p.state.store(DONE, SeqCst);
                wake(&p);
            }
        });
        Helper { port, thread: handle.thread().clone(), handle: Some(handle) }
    }
    fn resume(&self, turn: u64) {
        self.port.turn.store(turn, SeqCst);
        self.port.state.store(RUN, SeqCst);
        self.thread.unpark();
    }
    /// Waits until the thread has stopped or finished; `false` when it did not within `t`.
    fn wait(&self, t: Duration) -> bool {
        for _ in 0..300 {
            if self.port.state.load(SeqCst) != RUN {
                return true;
            }
            std::hint::spin_loop();
        }
        let t0 = Instant::now();
        while self.port.state.load(SeqCst) == RUN {
            match t.checked_sub(t0.elapsed()) {
                Some(rest) => std::thread::park_timeout(rest),
                None => return false,
            }
        }
        true
    }
}
impl Drop for Helper {
    fn drop(&mut self) {
        *self.port.job.lock().unwrap() = None;
        self.resume(u64::MAX);
        if let Some(h) = self.handle.take() {
            let _ = h.join();
        }
    }
}
thread_local!(static POOL: Cell<Vec<Helper>> = const { Cell::new(vec![]) });

type Fresh = Arc<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>;
static FRESH: Mutex<Vec<Fresh>> = Mutex::new(vec![]);
/// Names a function that is to be run in processes that have not used the library.
pub fn register(f: Fresh) -> usize {
    let mut all = FRESH.lock().unwrap();
    all.push(f);
    all.len() - 1
}
/// A copy of this process that was made before it had threads or used the library. It makes a copy of itself for
/// every request.
struct Copy {
    ask: std::fs::File,
    answer: std::fs::File,
}
static COPIES: Mutex<Vec<Copy>> = Mutex::new(vec![]);
pub fn start_copies(n: usize) {
    if FRESH.lock().unwrap().is_empty() {
        return;
    }
    for _ in 0..n {
        let (mut ask, mut answer) = (sys::Pipe::new(), sys::Pipe::new());
        sys::copy(|| {
            while let Some(request) = sys::receive(&mut ask.r) {
                let f = FRESH.lock().unwrap()[request[0] as usize].clone();
                let mut out = vec![];
                match sys::forked(|| f(&request[1..])) {
                    Ok(r) => {
                        out.push(1);
                        out.extend(r)
                    }
                    Err(e) => {
                        out.push(0);
                        out.extend(e.into_bytes())
                    }
                }
                if sys::send(&mut answer.w, &out).is_err() {
                    break;
                }
            }
        });
        COPIES.lock().unwrap().push(Copy { ask: ask.w, answer: answer.r });
    }
}
/// Runs a registered function in a process of its own.
pub fn fresh(id: usize, input: &[u8]) -> Result<Vec<u8>, String> {
    let mut c = loop {
        if let Some(c) = COPIES.lock().unwrap().pop() {
            break c;
        }
        std::thread::yield_now();
    };
    let mut request = vec![id as u8];
    request.extend(input);
    let ok = sys::send(&mut c.ask, &request).is_ok();
    let answer = if ok { sys::receive(&mut c.answer) } else { None };
    let mut answer = answer.expect("a copy of the process is gone");
    COPIES.lock().unwrap().push(c);
    if answer.remove(0) == 1 {
        Ok(answer)
    } else {
        Err(String::from_utf8_lossy(&answer).into_owned())
    }
}
#[derive(Hash)]
pub struct Ran {
    /// how many basic blocks each thread took
    pub blocks: Vec<u64>,
    /// turns after which the thread had to be left waiting for another one
    pub blocked: u64,
}
/// Runs the jobs, one thread each, in the turns given: (thread, number of basic blocks). What is left at the end is
/// run thread by thread.
pub fn run(jobs: Vec<Job>, turns: &[(usize, u64)]) -> Ran {
    let mut pool = POOL.with(|p| p.take());
    while pool.len() < jobs.len() {
        pool.push(Helper::new());
    }
    let n = jobs.len();
    for (h, j) in pool.iter().zip(jobs) {
        *h.port.job.lock().unwrap() = Some(j);
        h.port.state.store(IDLE, SeqCst);
    }
    let mut blocked = 0;
    let rest: Vec<(usize, u64)> = (0..n).map(|t| (t, u64::MAX)).collect();
    for (t, turn) in turns.iter().chain(&rest) {
        let h = &pool[*t];
        if matches!(h.port.state.load(SeqCst), IDLE | STOPPED) {
            h.resume(*turn);
            if !h.wait(if WAITS.load(Relaxed) > 100 { SHORT_PATIENCE } else { PATIENCE }) {
                WAITS.fetch_add(1, Relaxed);
                blocked += 1;
            }
        }
    }
    // those that had to wait may have stopped later, holding what others wait for
    loop {
        let mut done = true;
        for h in &pool[..n] {
            match h.port.state.load(SeqCst) {
                DONE => (),
                STOPPED => {
                    h.resume(u64::MAX);
                    done = false;
                }
                _ => done = false,
            }
        }
        if done {
            break;
        }
        std::thread::park_timeout(PATIENCE);
    }
    let blocks = pool[..n].iter().map(|h| h.port.used.load(SeqCst)).collect();
    POOL.with(|p| p.set(pool));
    Ran { blocks, blocked }
}
