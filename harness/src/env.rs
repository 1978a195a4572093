//! The environment of the code under test: random source, clock and host name file, replaced at link
//! time (the libc functions below take precedence over those of libc), with per-thread answers.

use std::cell::{Cell, RefCell};
use std::os::raw::{c_char, c_int, c_uint, c_void};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// Deliver only this many bytes
    Short(usize),
    /// Fail with this errno
    Errno(i32),
    /// Return 0 bytes
    Zero,
}

#[derive(Clone, Debug, Default)]
pub struct Rng {
    /// 0: the stream is all zero bytes
    pub key: u64,
    pub pos: u64,
    /// Byte of the stream which differs from the default
    pub dev: Option<(u64, u8)>,
    /// How the stream begins
    pub first: Vec<u8>,
    /// Every byte of the stream is complemented
    pub inv: bool,
    /// Answer of the n-th call (counted from 0), others deliver everything
    pub faults: Vec<(u32, Fault)>,
    /// From this call on, every call fails with EIO
    pub fail_from: Option<u32>,
    pub calls: u32,
    pub delivered: u64,
}

pub fn stream_byte(key: u64, pos: u64) -> u8 {
    if key == 0 {
        return 0;
    }
    let mut z = key
        .wrapping_mul(0x9e3779b97f4a7c15)
        .wrapping_add((pos / 8).wrapping_mul(0xd1342543de82ef95))
        .wrapping_add(0x2545f4914f6cdd1d);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^= z >> 31;
    (z >> (8 * (pos % 8))) as u8
}

thread_local! {
    static RNG_ON: Cell<bool> = const { Cell::new(false) };
    static RNG: RefCell<Rng> = const { RefCell::new(Rng { key: 0, pos: 0, dev: None, first: Vec::new(), inv: false, faults: Vec::new(), fail_from: None, calls: 0, delivered: 0 }) };
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static HOST_ON: Cell<bool> = const { Cell::new(false) };
    static HOST: RefCell<Result<Vec<u8>, i32>> = const { RefCell::new(Err(2)) };
}

thread_local! {
    static PREEMPT: RefCell<Option<std::rc::Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

/// The places inside of a call where another client may be scheduled: the call asks the operating
/// system for something.
fn preemption_point() {
    let f = PREEMPT.try_with(|p| p.borrow().clone()).ok().flatten();
    if let Some(f) = f {
        f();
    }
}

pub fn with_preemption<T>(point: std::rc::Rc<dyn Fn()>, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            PREEMPT.with(|p| *p.borrow_mut() = None);
        }
    }
    PREEMPT.with(|p| *p.borrow_mut() = Some(point));
    let _off = Off;
    f()
}

/// Runs `f` with the random source `rng`; returns the state of the source afterwards.
pub fn with_rng<T>(rng: Rng, f: impl FnOnce() -> T) -> (T, Rng) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            RNG_ON.with(|o| o.set(false));
        }
    }
    RNG.with(|r| *r.borrow_mut() = rng);
    RNG_ON.with(|o| o.set(true));
    let off = Off;
    let v = f();
    drop(off);
    (v, RNG.with(|r| r.borrow().clone()))
}

pub fn rng_key(key: u64) -> Rng {
    Rng { key, ..Default::default() }
}

pub fn with_clock<T>(secs: i64, nanos: i64, f: impl FnOnce() -> T) -> T {
    struct Off(Option<(i64, i64)>);
    impl Drop for Off {
        fn drop(&mut self) {
            CLOCK.with(|c| c.set(self.0));
        }
    }
    let _off = Off(CLOCK.with(|c| c.replace(Some((secs, nanos)))));
    f()
}

/// Moves the clock while `with_clock` is active.
pub fn set_clock(secs: i64, nanos: i64) {
    CLOCK.with(|c| c.set(Some((secs, nanos))));
}

pub fn with_hostname<T>(answer: Result<Vec<u8>, i32>, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            HOST_ON.with(|o| o.set(false));
        }
    }
    HOST.with(|h| *h.borrow_mut() = answer);
    HOST_ON.with(|o| o.set(true));
    let _off = Off;
    f()
}

/// A system call, without libc.
unsafe fn raw_syscall(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

/// The function of libc takes a variable number of arguments; here they are always read.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && RNG_ON.try_with(|o| o.get()).unwrap_or(false) {
        return getrandom(a as *mut c_void, b as usize, c as c_uint) as i64;
    }
    #[cfg(mc_race)]
    if n == libc::SYS_futex && matches!(b as c_int & 127, libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET) && crate::props::race::futex_wait() {
        set_errno(libc::EAGAIN);
        return -1;
    }
    raw_syscall(n, [a, b, c, d, e, f])
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if !RNG_ON.try_with(|o| o.get()).unwrap_or(false) {
        return raw_syscall(libc::SYS_getrandom, [buf as i64, len as i64, flags as i64, 0, 0, 0]) as isize;
    }
    if len == 0 {
        return 0; // availability probe
    }
    preemption_point();
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        let call = r.calls;
        r.calls += 1;
        if r.fail_from.is_some_and(|n| call >= n) {
            set_errno(libc::EIO);
            return -1;
        }
        let mut n = len;
        let fault = r.faults.iter().find(|f| f.0 == call).map(|f| f.1);
        match fault {
            Some(Fault::Errno(e)) => {
                set_errno(e);
                return -1;
            }
            Some(Fault::Zero) => return 0,
            Some(Fault::Short(k)) => n = n.min(k),
            None => {}
        }
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for b in out.iter_mut() {
            let pos = r.pos;
            *b = match r.dev {
                Some((p, v)) if p == pos => v,
                _ if pos < r.first.len() as u64 => r.first[pos as usize],
                _ => stream_byte(r.key, pos),
            };
            if r.inv {
                *b = !*b;
            }
            r.pos += 1;
            r.delivered += 1;
        }
        n as isize
    })
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if clk == libc::CLOCK_REALTIME {
        if let Ok(Some((s, n))) = CLOCK.try_with(|c| c.get()) {
            preemption_point();
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            return 0;
        }
    }
    if let Some(t) = odd(|o| o.uptime).flatten() {
        (*ts).tv_sec = t;
        (*ts).tv_nsec = 0;
        return 0;
    }
    raw_syscall(libc::SYS_clock_gettime, [clk as i64, ts as i64, 0, 0, 0, 0]) as c_int
}

// ---------------------------------------------------------------- odd surroundings

/// What a run may find around it without any of it being its business.
#[derive(Clone, Debug, Default)]
pub struct Odd {
    /// Requests to write to descriptors 1 and 2 from this one on are answered so (an interruption just once)
    pub streams: Option<(u32, Fault)>,
    /// Every environment variable that is not documented
    pub var: Option<&'static std::ffi::CStr>,
    /// Every file that is not documented
    pub file: Option<Result<Vec<u8>, i32>>,
    /// The clocks that are not the time of day
    pub uptime: Option<i64>,
    /// Process, user and group
    pub ids: Option<u32>,
    /// The name the system gives for itself, and the working directory
    pub host: Option<Result<&'static std::ffi::CStr, i32>>,
    pub errno: i32,
    /// What the logger does on its own account with each record
    pub logger: Option<fn()>,
}

thread_local! {
    static ODD_ON: Cell<bool> = const { Cell::new(false) };
    static ODD: RefCell<(Odd, u32, Vec<u8>)> = const { RefCell::new((Odd { streams: None, var: None, file: None, uptime: None, ids: None, host: None, errno: 0, logger: None }, 0, Vec::new())) };
}

fn odd<T>(f: impl FnOnce(&Odd) -> T) -> Option<T> {
    if !ODD_ON.try_with(|o| o.get()).unwrap_or(false) {
        return None;
    }
    ODD.try_with(|o| o.try_borrow().ok().map(|o| f(&o.0))).ok().flatten()
}

/// Runs `f` in these surroundings; also gives what this thread wrote to descriptors 1 and 2, or tried to.
pub fn with_odd<T>(o: Odd, f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ODD_ON.with(|o| o.set(false));
        }
    }
    let errno = o.errno;
    ODD.with(|c| *c.borrow_mut() = (o, 0, Vec::new()));
    ODD_ON.with(|o| o.set(true));
    let off = Off;
    unsafe { set_errno(errno) };
    let v = f();
    // What is still in the buffer of the standard output
    ODD.with(|c| c.borrow_mut().0.streams = None);
    let _ = std::io::Write::flush(&mut std::io::stdout());
    drop(off);
    (v, ODD.with(|c| std::mem::take(&mut c.borrow_mut().2)))
}

fn odd_write(b: &[u8]) -> Option<isize> {
    odd(|_| ())?;
    ODD.try_with(|c| {
        let mut c = c.borrow_mut();
        let at = c.1;
        c.1 += 1;
        c.2.extend_from_slice(b);
        match c.0.streams {
            Some((from, Fault::Errno(libc::EINTR))) if at == from => Err(libc::EINTR),
            Some((from, Fault::Errno(e))) if at >= from && e != libc::EINTR => Err(e),
            Some((from, Fault::Zero)) if at >= from => Ok(0),
            Some((from, Fault::Short(k))) if at >= from => Ok(b.len().min(k) as isize),
            _ => Ok(b.len() as isize),
        }
    })
    .ok()
    .map(|r| {
        r.unwrap_or_else(|e| {
            unsafe { set_errno(e) };
            -1
        })
    })
}

macro_rules! odd_ids {
    ($($name:ident $call:ident,)*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $name() -> c_uint {
                match odd(|o| o.ids).flatten() {
                    Some(id) => id,
                    None => raw_syscall(libc::$call, [0; 6]) as c_uint,
                }
            }
        )*
    };
}
odd_ids! {
    getpid SYS_getpid,
    getppid SYS_getppid,
    getuid SYS_getuid,
    geteuid SYS_geteuid,
    getgid SYS_getgid,
    getegid SYS_getegid,
}

#[no_mangle]
pub unsafe extern "C" fn gethostname(to: *mut c_char, len: usize) -> c_int {
    let real = || {
        let mut u: libc::utsname = std::mem::zeroed();
        raw_syscall(libc::SYS_uname, [&mut u as *mut _ as i64, 0, 0, 0, 0, 0]);
        u.nodename.iter().map(|c| *c as u8).take_while(|c| *c != 0).collect::<Vec<u8>>()
    };
    let name = match odd(|o| o.host).flatten() {
        Some(Err(e)) => {
            set_errno(e);
            return -1;
        }
        Some(Ok(name)) => name.to_bytes().to_vec(),
        None => real(),
    };
    if name.len() >= len {
        set_errno(libc::ENAMETOOLONG);
        return -1;
    }
    std::ptr::copy_nonoverlapping(name.as_ptr(), to.cast(), name.len());
    *to.add(name.len()) = 0;
    0
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(to: *mut c_char, len: usize) -> *mut c_char {
    let path = match odd(|o| o.host).flatten() {
        Some(Err(e)) => {
            set_errno(e);
            return std::ptr::null_mut();
        }
        Some(Ok(name)) => [b"/", name.to_bytes()].concat(),
        None => {
            // The caller always brings a buffer
            let n = raw_syscall(libc::SYS_getcwd, [to as i64, len as i64, 0, 0, 0, 0]);
            return if n < 0 { std::ptr::null_mut() } else { to };
        }
    };
    if path.len() >= len {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(path.as_ptr(), to.cast(), path.len());
    *to.add(path.len()) = 0;
    to
}

/// Time the processor has spent on this thread, in microseconds.
pub fn cpu_micros() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw_syscall(libc::SYS_clock_gettime, [libc::CLOCK_THREAD_CPUTIME_ID as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0]) };
    ts.tv_sec as u64 * 1_000_000 + ts.tv_nsec as u64 / 1000
}

unsafe fn host_open(path: *const c_char) -> Option<c_int> {
    if !HOST_ON.try_with(|o| o.get()).unwrap_or(false) || path.is_null() {
        return None;
    }
    if std::ffi::CStr::from_ptr(path).to_bytes() != b"/etc/hostname" {
        return None;
    }
    Some(HOST.with(|h| match *h.borrow() {
        Err(e) => {
            set_errno(e);
            -1
        }
        Ok(ref content) => memory_file(content),
    }))
}

unsafe fn memory_file(content: &[u8]) -> c_int {
    let fd = raw_syscall(libc::SYS_memfd_create, [c"hostname".as_ptr() as i64, libc::MFD_CLOEXEC as i64, 0, 0, 0, 0]) as c_int;
    assert!(fd >= 0, "memfd_create");
    let n = libc::write(fd, content.as_ptr().cast(), content.len());
    assert_eq!(n, content.len() as isize);
    libc::lseek(fd, 0, libc::SEEK_SET);
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if let Some(fd) = host_open(path) {
        return fd;
    }
    match odd(|o| o.file.clone()).flatten() {
        Some(Err(e)) => {
            set_errno(e);
            return -1;
        }
        Some(Ok(content)) => return memory_file(&content),
        None => {}
    }
    raw_syscall(libc::SYS_openat, [libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0]) as c_int
}

// ---------------------------------------------------------------- diagnostics

thread_local! {
    static CAPTURE_ON: Cell<bool> = const { Cell::new(false) };
    static CAPTURED: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

fn capturing() -> bool {
    CAPTURE_ON.try_with(|o| o.get()).unwrap_or(false)
}

/// Runs `f`; everything this thread prints or logs meanwhile. Every environment variable that is
/// asked for and does not exist is "1" meanwhile: whatever switches diagnostics on is on.
pub fn captured<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            CAPTURE_ON.with(|o| o.set(false));
        }
    }
    log::set_max_level(log::LevelFilter::Trace);
    CAPTURED.with(|c| c.borrow_mut().clear());
    CAPTURE_ON.with(|o| o.set(true));
    let off = Off;
    let v = f();
    let _ = std::io::Write::flush(&mut std::io::stdout());
    drop(off);
    (v, CAPTURED.with(|c| std::mem::take(&mut *c.borrow_mut())))
}

/// Formats every record, captured or not: logging may not change what a call does.
struct Logger;
struct Sink;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if let Some(f) = odd(|o| o.logger).flatten() {
            f();
        }
        if capturing() {
            let text = format!("{} {} {}\n", r.level(), r.target(), r.args());
            CAPTURED.with(|c| c.borrow_mut().extend_from_slice(text.as_bytes()));
        } else {
            let _ = std::fmt::write(&mut Sink, *r.args());
        }
    }
    fn flush(&self) {}
}

/// Every record is made, except in the plain build, which stays silent.
pub fn logging() -> log::LevelFilter {
    if cfg!(debug_assertions) {
        log::LevelFilter::Trace
    } else {
        log::LevelFilter::Off
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    if (fd == 1 || fd == 2) && capturing() {
        let b = std::slice::from_raw_parts(buf as *const u8, len);
        CAPTURED.with(|c| c.borrow_mut().extend_from_slice(b));
        return len as isize;
    }
    if fd == 1 || fd == 2 {
        if let Some(n) = odd_write(std::slice::from_raw_parts(buf as *const u8, len)) {
            return n;
        }
    }
    raw_syscall(libc::SYS_write, [fd as i64, buf as i64, len as i64, 0, 0, 0]) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if (fd == 1 || fd == 2) && capturing() {
        let mut sum = 0;
        for v in std::slice::from_raw_parts(iov, n as usize) {
            sum += write(fd, v.iov_base, v.iov_len);
        }
        return sum;
    }
    if fd == 1 || fd == 2 {
        let all = std::slice::from_raw_parts(iov, n as usize).iter().flat_map(|v| std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len)).copied().collect::<Vec<u8>>();
        if let Some(n) = odd_write(&all) {
            return n;
        }
    }
    raw_syscall(libc::SYS_writev, [fd as i64, iov as i64, n as i64, 0, 0, 0]) as isize
}

/// Brings all of this thread's data of the stand-ins into being.
pub fn touch() {
    PREEMPT.with(|p| drop(p.borrow()));
    CAPTURED.with(|p| drop(p.borrow()));
    HOST.with(|p| drop(p.borrow()));
    RNG.with(|p| drop(p.borrow()));
    NAME.with(|p| drop(p.borrow()));
    ODD.with(|p| drop(p.borrow()));
}

/// The environment variables that names are taken from
const DOCUMENTED: [&str; 4] = ["COMPUTERNAME", "USERDOMAIN", "COMPUTERDNSNAME", "USERDNSDOMAIN"];

thread_local! {
    static NAME: RefCell<Option<Option<std::ffi::CString>>> = const { RefCell::new(None) };
}
/// Runs `f` with COMPUTERNAME set, or not, for this thread alone.
pub fn with_computername<T>(name: Option<&str>, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            NAME.with(|n| *n.borrow_mut() = None);
        }
    }
    NAME.with(|n| *n.borrow_mut() = Some(name.map(|s| std::ffi::CString::new(s).expect("no NUL"))));
    let _off = Off;
    f()
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    extern "C" {
        static environ: *const *mut c_char;
    }
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    // The value is copied by the caller before anything else happens on this thread
    let set = NAME.try_with(|v| v.borrow().as_ref().map(|v| v.as_ref().map_or(std::ptr::null_mut(), |v| v.as_ptr() as *mut c_char))).ok().flatten();
    if let (Some(p), b"COMPUTERNAME") = (set, want) {
        return p;
    }
    let mut at = environ;
    while !at.is_null() && !(*at).is_null() {
        let entry = std::ffi::CStr::from_ptr(*at).to_bytes();
        if entry.len() > want.len() && entry[want.len()] == b'=' && &entry[..want.len()] == want {
            return (*at).add(want.len() + 1);
        }
        at = at.add(1);
    }
    if !DOCUMENTED.iter().any(|k| k.as_bytes() == want) {
        if let Some(v) = odd(|o| o.var).flatten() {
            return v.as_ptr() as *mut c_char;
        }
    }
    if capturing() && !DOCUMENTED.iter().any(|k| k.as_bytes() == want) {
        return c"1".as_ptr() as *mut c_char;
    }
    std::ptr::null_mut()
}

/// Checks, without the code under test, that the stand-ins are in effect.
pub fn self_test() {
    let _ = log::set_logger(&Logger);
    let ((), out) = captured(|| {
        eprintln!("to stderr");
        print!("to stdout");
        log::trace!("to the log");
        assert_eq!(std::env::var("MC_NO_SUCH_SWITCH").as_deref(), Ok("1"));
    });
    log::set_max_level(logging());
    let out = String::from_utf8_lossy(&out).into_owned();
    for what in ["to stderr", "to stdout", "to the log"] {
        assert!(out.contains(what), "diagnostics are not captured: {out:?}");
    }
    assert!(std::env::var("MC_NO_SUCH_SWITCH").is_err());
    use rand::RngCore;
    let (v, after) = with_rng(rng_key(7), || {
        let mut b = [0u8; 24];
        rand::rngs::OsRng.fill_bytes(&mut b);
        b
    });
    let want: Vec<u8> = (0..24).map(|p| stream_byte(7, p)).collect();
    assert_eq!(&v[..], &want[..], "random source is not the stand-in");
    assert_eq!(after.delivered, 24);
    let t = with_clock(1234, 5678, std::time::SystemTime::now);
    assert_eq!(
        t.duration_since(std::time::UNIX_EPOCH).unwrap(),
        std::time::Duration::new(1234, 5678),
        "clock is not the stand-in"
    );
    let h = with_hostname(Ok(b"abc\n".to_vec()), || std::fs::read_to_string("/etc/hostname"));
    assert_eq!(h.unwrap(), "abc\n", "host name file is not the stand-in");
    let h = with_hostname(Err(libc::EACCES), || std::fs::read_to_string("/etc/hostname"));
    assert_eq!(h.unwrap_err().raw_os_error(), Some(libc::EACCES));
    let odd = Odd {
        streams: Some((0, Fault::Errno(libc::EPIPE))),
        var: Some(c"odd"),
        file: Some(Ok(b"odd file".to_vec())),
        uptime: Some(77),
        ids: Some(4711),
        host: Some(Ok(c"odd-host")),
        errno: 5,
        logger: None,
    };
    let ((), out) = with_odd(odd, || {
        use std::io::Write;
        assert!(std::io::stderr().write(b"to stderr").is_err());
        assert!(std::io::stdout().write(b"to stdout").is_ok());
        assert!(std::io::stdout().flush().is_err());
        assert_eq!(std::env::var("MC_NO_SUCH_SWITCH").as_deref(), Ok("odd"));
        assert!(std::env::var("USERDNSDOMAIN").is_err());
        assert_eq!(std::fs::read("/etc/mc/no/such").expect("a file"), b"odd file");
        assert_eq!(std::process::id(), 4711);
        assert_eq!(std::env::current_dir().unwrap().to_str(), Some("/odd-host"));
    });
    let out = String::from_utf8_lossy(&out).into_owned();
    for what in ["to stderr", "to stdout"] {
        assert!(out.contains(what), "output is not seen: {out:?}");
    }
    assert!(std::fs::read("/etc/mc/no/such").is_err());
}
