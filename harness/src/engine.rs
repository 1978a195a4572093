//! Exhaustive enumeration of finite, indexed spaces of executions. A space maps every index below
//! `len` to one execution of the real code, checked against the reference model.

use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Default)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<IdHash>>;

const MAX_STATES_PER_THREAD: usize = 500_000;

/// What one thread has seen.
#[derive(Default)]
pub struct Obs {
    pub states: U64Set,
    pub states_capped: bool,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
}

impl Obs {
    /// The model reached this state.
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, s: &T) {
        self.state_hash(crate::spec::fx(s));
    }
    pub fn state_hash(&mut self, h: u64) {
        if self.states.len() < MAX_STATES_PER_THREAD {
            self.states.insert(h);
        } else if !self.states.contains(&h) {
            self.states_capped = true;
        }
    }
    /// The implementation made `n` steps.
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn outcome(&mut self, o: &'static str) {
        *self.outcomes.entry(o).or_insert(0) += 1;
    }
}

pub type Res = Result<(), String>;

pub struct Space {
    pub name: String,
    pub len: u64,
    pub run: Box<dyn Fn(u64, &mut Obs) -> Res + Send + Sync>,
    pub describe: Box<dyn Fn(u64) -> String + Send + Sync>,
    /// One thread only (process-wide environment)
    pub serial: bool,
    /// Process-wide environment variables while this space is explored
    pub vars: Vec<(&'static str, Option<Vec<u8>>)>,
    /// What else is to be done before this space is explored
    pub setup: Option<Box<dyn Fn() + Send + Sync>>,
    /// Outcomes that must have been observed, else the exploration was vacuous
    pub must_see: Vec<&'static str>,
}

impl Space {
    pub fn new(
        name: &str,
        len: u64,
        describe: impl Fn(u64) -> String + Send + Sync + 'static,
        run: impl Fn(u64, &mut Obs) -> Res + Send + Sync + 'static,
    ) -> Self {
        assert!(len > 0, "empty space {name}");
        Space {
            name: name.into(),
            len,
            run: Box::new(run),
            describe: Box::new(describe),
            serial: false,
            vars: vec![],
            setup: None,
            must_see: vec![],
        }
    }
    /// A space whose cases are values built from the index.
    pub fn of<C: std::fmt::Debug + 'static>(
        name: &str,
        len: u64,
        case: impl Fn(u64) -> C + Send + Sync + Clone + 'static,
        run: impl Fn(&C, &mut Obs) -> Res + Send + Sync + 'static,
    ) -> Self {
        let case2 = case.clone();
        Self::new(
            name,
            len,
            move |i| {
                let mut s = format!("{:?}", case2(i));
                if s.len() > 6000 {
                    let mut cut = 6000;
                    while !s.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    s.truncate(cut);
                    s.push_str("...");
                }
                s
            },
            move |i, o| run(&case(i), o),
        )
    }
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
    pub fn var(mut self, name: &'static str, value: Option<&[u8]>) -> Self {
        self.vars.push((name, value.map(|v| v.to_vec())));
        self
    }
    /// Sets the environment variables of this space.
    pub fn enter(&self) {
        for (k, v) in &self.vars {
            set_var(k, v.as_deref());
        }
        if let Some(f) = &self.setup {
            f();
        }
    }
    pub fn setup(mut self, f: impl Fn() + Send + Sync + 'static) -> Self {
        self.setup = Some(Box::new(f));
        self
    }
    pub fn must_see(mut self, o: &[&'static str]) -> Self {
        self.must_see = o.to_vec();
        self
    }
}

pub fn set_var(k: &str, v: Option<&[u8]>) {
    use std::os::unix::ffi::OsStrExt;
    match v {
        Some(v) => std::env::set_var(k, std::ffi::OsStr::from_bytes(v)),
        None => std::env::remove_var(k),
    }
}

/// Consecutive segments of an index space.
#[derive(Clone)]
pub struct Segs(Vec<u64>);
impl Segs {
    pub fn new(sizes: impl IntoIterator<Item = u64>) -> Self {
        let mut t = 0;
        Segs(
            sizes
                .into_iter()
                .map(|s| {
                    t += s;
                    t
                })
                .collect(),
        )
    }
    pub fn len(&self) -> u64 {
        *self.0.last().unwrap()
    }
    /// (segment, index in it)
    pub fn find(&self, i: u64) -> (usize, u64) {
        let s = self.0.partition_point(|e| *e <= i);
        (s, if s == 0 { i } else { i - self.0[s - 1] })
    }
}

/// Mixed-radix decoding of an index.
pub struct Mix(pub u64);
impl Mix {
    pub fn pick(&mut self, n: usize) -> usize {
        let n = n as u64;
        let r = self.0 % n;
        self.0 /= n;
        r as usize
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.pick(v.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
}

/// Sequences over an alphabet of `k` letters with length 0..=max: how many there are, and the i-th
/// (shortest first).
pub fn seq_count(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}
pub fn seq_at(k: u64, mut i: u64) -> Vec<usize> {
    let mut l = 0u32;
    while i >= k.pow(l) {
        i -= k.pow(l);
        l += 1;
    }
    let mut v = Vec::with_capacity(l as usize);
    for _ in 0..l {
        v.push((i % k) as usize);
        i /= k;
    }
    v.reverse();
    v
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs code under test; a panic becomes an error with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn run_case(space: &Space, i: u64, obs: &mut Obs) -> Res {
    obs.traces += 1;
    match guard(|| (space.run)(i, obs)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}

/// Shared with the parent process: what each thread is executing.
pub struct Slots(*mut AtomicU64);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
pub const MAX_THREADS: usize = 16;
pub const IDLE: u64 = u64::MAX;

impl Slots {
    pub fn map(path: &str) -> std::io::Result<Self> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
        let size = MAX_THREADS * 16;
        f.set_len(size as u64)?;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots(p.cast()))
    }
    fn at(&self, thread: usize, k: usize) -> &AtomicU64 {
        assert!(thread < MAX_THREADS && k < 2);
        unsafe { &*self.0.add(thread * 2 + k) }
    }
    pub fn set(&self, thread: usize, space: u64, case: u64) {
        self.at(thread, 0).store(space, Ordering::Relaxed);
        self.at(thread, 1).store(case, Ordering::Relaxed);
    }
    pub fn get(&self, thread: usize) -> (u64, u64) {
        (self.at(thread, 0).load(Ordering::Relaxed), self.at(thread, 1).load(Ordering::Relaxed))
    }
    pub fn clear(&self) {
        for t in 0..MAX_THREADS {
            self.set(t, IDLE, IDLE);
        }
    }
}

pub struct SpaceResult {
    pub evaluations: u64,
    pub obs: Obs,
    pub violation: Option<(u64, String)>,
    pub vacuous: Option<String>,
    pub wall: f64,
}

pub fn explore(space_no: usize, space: &Space, threads: usize, slots: &Slots) -> SpaceResult {
    let t0 = std::time::Instant::now();
    let threads = if space.serial { 1 } else { threads.min(MAX_THREADS) };
    let chunk = (space.len / (threads as u64 * 64)).clamp(1, 8192);
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let evaluations = AtomicU64::new(0);
    let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let all: Mutex<Vec<Obs>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop, found, all, evaluations) = (&next, &stop, &found, &all, &evaluations);
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    let mut obs = Obs::default();
                    let mut n = 0u64;
                    'work: loop {
                        let from = next.fetch_add(chunk, Ordering::Relaxed);
                        if from >= space.len || from > stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in from..(from + chunk).min(space.len) {
                            slots.set(t, space_no as u64, i);
                            n += 1;
                            if let Err(e) = run_case(space, i, &mut obs) {
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map_or(true, |(j, _)| i < *j) {
                                    *f = Some((i, e));
                                }
                                stop.fetch_min(i, Ordering::Relaxed);
                                break 'work;
                            }
                        }
                    }
                    slots.set(t, IDLE, IDLE);
                    evaluations.fetch_add(n, Ordering::Relaxed);
                    all.lock().unwrap().push(obs);
                })
                .unwrap();
        }
    });
    let mut total = Obs::default();
    for o in all.into_inner().unwrap() {
        total.transitions += o.transitions;
        total.traces += o.traces;
        total.states_capped |= o.states_capped;
        for (k, v) in o.outcomes {
            *total.outcomes.entry(k).or_insert(0) += v;
        }
        if total.states.is_empty() {
            total.states = o.states;
        } else {
            // Inserting in the order of another table would be quadratic
            total.states.reserve(o.states.len());
            total.states.extend(o.states);
        }
    }
    let violation = found.into_inner().unwrap();
    let mut vacuous = None;
    if violation.is_none() {
        for o in &space.must_see {
            if !total.outcomes.contains_key(o) {
                vacuous = Some(format!("outcome '{o}' was never observed"));
            }
        }
    }
    SpaceResult {
        evaluations: evaluations.into_inner(),
        obs: total,
        violation,
        vacuous,
        wall: t0.elapsed().as_secs_f64(),
    }
}
