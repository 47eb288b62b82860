//! The few system calls the explorer needs, without a libc crate.
use std::ffi::c_void;
extern "C" {
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn munmap(addr: *mut c_void, len: usize) -> i32;
    fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
    fn gettid() -> i32;
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
    #[cfg(feature = "sched")]
    fn fork() -> i32;
    #[cfg(feature = "sched")]
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    #[cfg(feature = "sched")]
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    #[cfg(feature = "sched")]
    fn pipe(fd: *mut i32) -> i32;
    #[cfg(feature = "sched")]
    fn _exit(code: i32) -> !;
}
const RW: i32 = 3;
/// Address-space and core-dump limits: an allocation blow-up ends in an abort of the worker only.
pub fn limits() {
    unsafe {
        setrlimit(9, &[12 << 30, 12 << 30]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
}
pub fn thread_id() -> u64 {
    unsafe { gettid() as u64 }
}
/// Processor time used so far, from a /proc/.../stat file (0 when it cannot be read).
pub fn cpu_seconds(stat: &str) -> f64 {
    let text = std::fs::read_to_string(stat).unwrap_or_default();
    let rest = text.rsplit(')').next().unwrap_or("");
    let f: Vec<f64> = rest.split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum::<f64>() / 100.0
}
#[cfg(feature = "sched")]
pub struct Pipe {
    pub r: std::fs::File,
    pub w: std::fs::File,
}
#[cfg(feature = "sched")]
impl Pipe {
    pub fn new() -> Pipe {
        use std::os::unix::io::FromRawFd;
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe failed");
            Pipe { r: std::fs::File::from_raw_fd(fds[0]), w: std::fs::File::from_raw_fd(fds[1]) }
        }
    }
}
/// A copy of this process, which must have only one thread (locks that others hold would stay locked in the copy);
/// it ends with `f`, or when this process ends.
#[cfg(feature = "sched")]
pub fn copy(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0); // PR_SET_PDEATHSIG
            f();
            _exit(0)
        }
        pid
    }
}
/// Runs `f` in a copy of this process and gives what it returns.
#[cfg(feature = "sched")]
pub fn forked(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let Pipe { mut r, mut w } = Pipe::new();
    let pid = copy(|| {
        let _ = send(&mut w, &f());
    });
    drop(w);
    let out = receive(&mut r);
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    match out {
        Some(out) if status == 0 => Ok(out),
        _ => Err(format!("the process died (wait status {:#x})", status)),
    }
}
#[cfg(feature = "sched")]
pub fn send(w: &mut std::fs::File, b: &[u8]) -> std::io::Result<()> {
    use std::io::Write;
    let mut all = (b.len() as u64).to_le_bytes().to_vec();
    all.extend(b);
    w.write_all(&all)
}
#[cfg(feature = "sched")]
pub fn receive(r: &mut std::fs::File) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut len = [0u8; 8];
    r.read_exact(&mut len).ok()?;
    let mut out = vec![0; u64::from_le_bytes(len) as usize];
    r.read_exact(&mut out).ok()?;
    Some(out)
}
pub fn shared_file(f: &std::fs::File, len: usize) -> *mut u8 {
    use std::os::unix::io::AsRawFd;
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, RW, 1, f.as_raw_fd(), 0);
        assert!(p as isize != -1, "mmap failed");
        p as *mut u8
    }
}
/// A buffer with an inaccessible page on either side; inputs are laid against the far or near end so
/// that a read past either end of the input faults.
pub struct Guarded {
    base: *mut u8,
    cap: usize,
}
unsafe impl Send for Guarded {}
const PAGE: usize = 4096;
impl Guarded {
    pub fn new(cap: usize) -> Guarded {
        let cap = (cap + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), cap + 2 * PAGE, RW, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap failed");
            assert_eq!(mprotect(p, PAGE, 0), 0);
            assert_eq!(mprotect((p as *mut u8).add(PAGE + cap) as *mut c_void, PAGE, 0), 0);
            Guarded { base: (p as *mut u8).add(PAGE), cap }
        }
    }
    pub fn cap(&self) -> usize {
        self.cap
    }
    pub fn lay(&mut self, b: &[u8], at_end: bool) -> &[u8] {
        assert!(b.len() <= self.cap);
        unsafe {
            let p = if at_end { self.base.add(self.cap - b.len()) } else { self.base };
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            std::slice::from_raw_parts(p, b.len())
        }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe { munmap(self.base.sub(PAGE) as *mut c_void, self.cap + 2 * PAGE) };
    }
}
