//! C27: the Windows client against stand-ins for the SSPI calls, with every combination of answers.

use crate::engine::*;
use crate::win::WinClient;
use std::cell::RefCell;
use std::ffi::CStr;
use windows::core::HRESULT;
use windows::Win32::Security::Authentication::Identity::{SecBufferDesc, SECBUFFER_TOKEN};
use windows::Win32::Security::Credentials::SecHandle;

const OK: i32 = 0;
const CONTINUE: i32 = 0x0009_0312;
const COMPLETE: i32 = 0x0009_0313;
const COMPLETE_CONTINUE: i32 = 0x0009_0314;
const INTERNAL_ERROR: i32 = 0x8009_0304u32 as i32;
const INVALID_TOKEN: i32 = 0x8009_0308u32 as i32;
const LOGON_DENIED: i32 = 0x8009_030cu32 as i32;
const INSUFFICIENT_MEMORY: i32 = 0x8009_0300u32 as i32;
const BUFFER_TOO_SMALL: i32 = 0x8009_0321u32 as i32;
const INCOMPLETE: i32 = 0x8009_0318u32 as i32;

/// How the system answers one step.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Answer {
    ret: i32,
    /// Bytes of token it produces; `usize::MAX` is all of the buffer
    len: usize,
    /// On failure, what it leaves as length: `None` leaves the field alone
    left: Option<u32>,
    /// The answer of CompleteAuthToken, if asked
    complete: i32,
}
impl Answer {
    fn asks_completion(&self) -> bool {
        self.ret == COMPLETE || self.ret == COMPLETE_CONTINUE
    }
    fn fails(&self) -> bool {
        self.ret < 0 || (self.asks_completion() && self.complete < 0)
    }
}

#[derive(Default)]
struct System {
    acquire: i32,
    answers: Vec<Answer>,
    target: Vec<u8>,
    step: usize,
    credentials: Option<(usize, usize)>,
    contexts: Vec<(usize, usize)>,
    /// The token handed in by the last step
    input: Option<Vec<u8>>,
    /// The token produced by the last step
    produced: Vec<u8>,
    context_in: Option<(usize, usize)>,
    completed: usize,
    wrong: Option<String>,
    next: usize,
    /// The answer to releasing something
    release: i32,
    /// Credentials and contexts that were released
    freed: Vec<(usize, usize)>,
    deleted: Vec<(usize, usize)>,
    /// A use of what was released
    late: Option<String>,
}
impl System {
    fn complain(&mut self, e: String) {
        self.wrong.get_or_insert(e);
    }
    fn held(&mut self, what: &str, credentials: Option<(usize, usize)>, context: Option<(usize, usize)>) {
        if credentials.is_some_and(|c| self.freed.contains(&c)) {
            self.late.get_or_insert(format!("{what} uses credentials that were freed"));
        }
        if context.is_some_and(|c| self.deleted.contains(&c)) {
            self.late.get_or_insert(format!("{what} uses a context that was deleted"));
        }
    }
    /// What is wrong with the releases, at the end or before it.
    fn released(&self, end: bool) -> Res {
        if let Some(e) = &self.late {
            return Err(e.clone());
        }
        for (given, back, what) in [(&self.credentials.into_iter().collect(), &self.freed, "credentials"), (&self.contexts, &self.deleted, "context")] {
            if let Some(h) = back.iter().find(|h| !given.contains(h)) {
                return Err(format!("{what} {h:x?} released, which the system did not give"));
            }
            for h in given {
                match back.iter().filter(|b| *b == h).count() {
                    0 if end => return Err(format!("{what} {h:x?} never released")),
                    0 | 1 => {}
                    n => return Err(format!("{what} {h:x?} released {n} times")),
                }
            }
        }
        Ok(())
    }
    fn handle(&mut self) -> (usize, usize) {
        self.next += 1;
        (0x5a5a_0000_1111 + self.next * 0x1_0001, 0x7171_0000 + self.next)
    }
}

thread_local! {
    static SYSTEM: RefCell<System> = RefCell::new(System::default());
}

fn token(step: usize, len: usize) -> Vec<u8> {
    (0..len).map(|i| (i as u8).wrapping_mul(7).wrapping_add(step as u8 * 31) | 1).collect()
}

fn pair(h: *const SecHandle) -> Option<(usize, usize)> {
    unsafe { h.as_ref().map(|h| (h.dwLower, h.dwUpper)) }
}

#[no_mangle]
#[allow(clippy::too_many_arguments)]
extern "system" fn AcquireCredentialsHandleA(
    _principal: *const u8,
    package: *const u8,
    usage: u32,
    _logon: *const core::ffi::c_void,
    _auth: *const core::ffi::c_void,
    _key_fn: *const core::ffi::c_void,
    _key_arg: *const core::ffi::c_void,
    credential: *mut SecHandle,
    expiry: *mut i64,
) -> HRESULT {
    SYSTEM.with(|s| {
        let mut s = s.borrow_mut();
        if package.is_null() || unsafe { CStr::from_ptr(package.cast()) }.to_bytes().is_empty() || usage != 2 {
            s.complain("the credentials are not for a package, outbound".into());
        }
        if s.acquire >= 0 {
            let h = s.handle();
            s.credentials = Some(h);
            unsafe {
                (*credential).dwLower = h.0;
                (*credential).dwUpper = h.1;
                if !expiry.is_null() {
                    *expiry = i64::MAX;
                }
            }
        }
        HRESULT(s.acquire)
    })
}

#[no_mangle]
#[allow(clippy::too_many_arguments)]
extern "system" fn InitializeSecurityContextA(
    credential: *const SecHandle,
    context: *const SecHandle,
    target: *const i8,
    _req: u32,
    _reserved1: u32,
    _drep: u32,
    input: *const SecBufferDesc,
    _reserved2: u32,
    new_context: *mut SecHandle,
    output: *mut SecBufferDesc,
    attr: *mut u32,
    _expiry: *mut i64,
) -> HRESULT {
    SYSTEM.with(|s| {
        let mut s = s.borrow_mut();
        let Some(a) = s.answers.get(s.step).copied() else {
            s.complain("more calls than steps".into());
            return HRESULT(INTERNAL_ERROR);
        };
        let step = s.step;
        s.step += 1;
        if pair(credential) != s.credentials {
            s.complain(format!("step {step} uses other credentials than the system gave"));
        }
        s.context_in = pair(context);
        let c = s.context_in;
        s.held(&format!("step {step}"), pair(credential), c);
        if let Some(c) = s.context_in {
            if !s.contexts.contains(&c) {
                s.complain(format!("step {step} uses a context that the system did not give: {c:x?}"));
            }
        }
        let t = if target.is_null() { vec![] } else { unsafe { CStr::from_ptr(target) }.to_bytes().to_vec() };
        if t != s.target {
            s.complain(format!("step {step} names the target {t:x?}"));
        }
        s.input = unsafe { input.as_ref() }.map(|d| {
            let mut all = vec![];
            for i in 0..d.cBuffers {
                let b = unsafe { &*d.pBuffers.add(i as usize) };
                if b.BufferType & 0xff == SECBUFFER_TOKEN && b.cbBuffer > 0 {
                    all.extend_from_slice(unsafe { std::slice::from_raw_parts(b.pvBuffer as *const u8, b.cbBuffer as usize) });
                }
            }
            all
        });
        let out = unsafe { &*output };
        if out.cBuffers != 1 {
            s.complain(format!("step {step} has {} output buffers", out.cBuffers));
            return HRESULT(INTERNAL_ERROR);
        }
        let b = unsafe { &mut *out.pBuffers };
        let room = b.cbBuffer as usize;
        if room < 2048 {
            s.complain(format!("step {step} leaves {room} bytes for the token"));
            return HRESULT(BUFFER_TOO_SMALL);
        }
        let len = a.len.min(room);
        let t = token(step, len);
        unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), b.pvBuffer as *mut u8, len) };
        if !attr.is_null() {
            unsafe { *attr = 0 };
        }
        if a.ret < 0 {
            if let Some(l) = a.left {
                b.cbBuffer = l;
            }
            return HRESULT(a.ret);
        }
        b.cbBuffer = len as u32;
        s.produced = t;
        let c = match s.context_in {
            Some(c) => c,
            None => {
                let c = s.handle();
                s.contexts.push(c);
                c
            }
        };
        if !new_context.is_null() {
            unsafe {
                (*new_context).dwLower = c.0;
                (*new_context).dwUpper = c.1;
            }
        }
        HRESULT(a.ret)
    })
}

#[no_mangle]
extern "system" fn CompleteAuthToken(context: *const SecHandle, desc: *const SecBufferDesc) -> HRESULT {
    SYSTEM.with(|s| {
        let mut s = s.borrow_mut();
        let step = s.step - 1;
        let a = s.answers[step];
        s.completed += 1;
        if !a.asks_completion() {
            s.complain(format!("step {step} is completed without need"));
        }
        let want = s.context_in.or(s.contexts.last().copied());
        s.held(&format!("completing step {step}"), None, pair(context));
        if pair(context) != want {
            s.complain(format!("step {step} is completed in another context"));
        }
        let b = unsafe { &*(*desc).pBuffers };
        if b.cbBuffer as usize != s.produced.len() {
            let n = s.produced.len();
            s.complain(format!("step {step} is completed with {} bytes of {n}", b.cbBuffer));
            return HRESULT(INTERNAL_ERROR);
        }
        // The system seals the token in place
        for i in 0..b.cbBuffer as usize {
            let p = unsafe { &mut *(b.pvBuffer as *mut u8).add(i) };
            *p ^= 0x80;
            s.produced[i] ^= 0x80;
        }
        HRESULT(a.complete)
    })
}

#[no_mangle]
extern "system" fn DeleteSecurityContext(c: *const SecHandle) -> HRESULT {
    SYSTEM.with(|s| {
        let mut s = s.borrow_mut();
        s.deleted.extend(pair(c));
        HRESULT(s.release)
    })
}
#[no_mangle]
extern "system" fn FreeCredentialsHandle(c: *const SecHandle) -> HRESULT {
    SYSTEM.with(|s| {
        let mut s = s.borrow_mut();
        s.freed.extend(pair(c));
        HRESULT(s.release)
    })
}
// What else a client may tell the system; nothing to check
#[no_mangle]
extern "system" fn FreeContextBuffer(_c: *mut core::ffi::c_void) -> HRESULT {
    HRESULT(OK)
}
#[no_mangle]
extern "system" fn GetErrorInfo(_r: u32, _i: *mut *mut core::ffi::c_void) -> HRESULT {
    HRESULT(1)
}
#[no_mangle]
extern "system" fn SetErrorInfo(_r: u32, _i: *const core::ffi::c_void) -> HRESULT {
    HRESULT(OK)
}
#[no_mangle]
extern "system" fn GetLastError() -> u32 {
    0
}
#[no_mangle]
extern "system" fn QuerySecurityPackageInfoA(_n: *const u8, _i: *mut *mut core::ffi::c_void) -> HRESULT {
    HRESULT(INTERNAL_ERROR)
}
#[no_mangle]
extern "system" fn QueryContextAttributesA(_c: *const SecHandle, _a: u32, _b: *mut core::ffi::c_void) -> HRESULT {
    HRESULT(INTERNAL_ERROR)
}

// What the `windows` crate needs to link and to describe errors
#[no_mangle]
extern "system" fn FormatMessageW(_f: u32, _s: usize, _c: u32, _l: u32, _b: usize, _n: u32, _a: usize) -> u32 {
    0
}
#[no_mangle]
extern "system" fn GetProcessHeap() -> isize {
    1
}
#[no_mangle]
extern "system" fn HeapAlloc(_h: isize, _f: u32, len: usize) -> *mut core::ffi::c_void {
    unsafe { libc::calloc(1, len.max(1)).cast() }
}
#[no_mangle]
extern "system" fn HeapFree(_h: isize, _f: u32, p: *mut core::ffi::c_void) -> i32 {
    unsafe { libc::free(p.cast()) };
    1
}
#[no_mangle]
extern "system" fn LoadLibraryA(_n: *const u8) -> isize {
    0
}
#[no_mangle]
extern "system" fn GetProcAddress(_l: isize, _n: *const u8) -> usize {
    0
}
#[no_mangle]
extern "system" fn FreeLibrary(_l: isize) -> i32 {
    1
}
// No BSTR is ever made
#[no_mangle]
extern "system" fn SysStringLen(_b: *const u16) -> u32 {
    0
}
#[no_mangle]
extern "system" fn SysFreeString(_b: *const u16) {}
#[no_mangle]
extern "system" fn SysAllocStringLen(_p: *const u16, _n: u32) -> *const u16 {
    core::ptr::null()
}

#[derive(Clone, Debug)]
enum Step {
    Negotiate,
    /// A token of this many bytes
    Challenge(usize),
}

#[derive(Clone, Debug)]
struct Case {
    target: String,
    acquire: i32,
    steps: Vec<(Step, Answer)>,
}

/// A client and the system as it answers it.
struct Session {
    client: Option<WinClient>,
    system: System,
    steps: Vec<(Step, Answer)>,
    at: usize,
    given: Option<(usize, usize)>,
}

fn in_system<T>(system: &mut System, f: impl FnOnce() -> T) -> T {
    SYSTEM.with(|s| std::mem::swap(&mut *s.borrow_mut(), system));
    let r = f();
    SYSTEM.with(|s| std::mem::swap(&mut *s.borrow_mut(), system));
    r
}

impl Drop for Session {
    fn drop(&mut self) {
        let client = self.client.take();
        let _ = in_system(&mut self.system, || guard(|| drop(client)));
    }
}

impl Session {
    /// A session, without a client if there should be none
    fn new(c: &Case, first: usize, o: &mut Obs) -> Result<Session, String> {
        let system = System {
            acquire: c.acquire,
            answers: c.steps.iter().map(|s| s.1).collect(),
            target: c.target.as_bytes().to_vec(),
            next: first,
            ..Default::default()
        };
        let mut s = Session { client: None, system, steps: c.steps.clone(), at: 0, given: None };
        let made = in_system(&mut s.system, || guard(|| WinClient::new(&c.target))).map_err(|e| format!("building the client panicked: {e}"))?;
        o.steps(1);
        let impossible = c.target.contains('\0');
        s.client = match made {
            Err(_) if impossible || c.acquire < 0 => {
                o.outcome("no client");
                s.steps.clear();
                None
            }
            Err(e) => return Err(format!("no client: {e}")),
            Ok(_) if impossible => return Err("a client for a target that cannot be named".into()),
            Ok(_) if c.acquire < 0 => return Err("a client without credentials".into()),
            Ok(c) => Some(c),
        };
        match s.system.wrong.clone() {
            Some(e) => Err(e),
            None => Ok(s),
        }
    }

    fn step(&mut self, o: &mut Obs) -> Res {
        let n = self.at;
        let Some((step, a)) = self.steps.get(n).cloned() else { return Ok(()) };
        let Some(client) = self.client.as_mut() else { return Ok(()) };
        self.at += 1;
        let before = self.system.step;
        let sent = match step {
            Step::Negotiate => None,
            Step::Challenge(len) => Some((0..len).map(|i| (i as u8) ^ (n as u8) << 4).collect::<Vec<u8>>()),
        };
        let r = in_system(&mut self.system, || {
            guard(|| {
                match &sent {
                    None => client.negotiate(),
                    Some(t) => client.challenge(t),
                }
                .map(|b| b.to_vec())
                .map_err(|e| {
                    drop(e);
                })
            })
        })
        .map_err(|e| format!("step {n} panicked: {e}"))?;
        o.steps(1);
        let s = &mut self.system;
        if let Some(e) = s.wrong.clone() {
            return Err(e);
        }
        let completed = std::mem::take(&mut s.completed);
        let calls = s.step - before;
        if calls != 1 {
            return Err(format!("step {n} makes {calls} calls"));
        }
        if s.input.as_deref().unwrap_or(&[]) != sent.as_deref().unwrap_or(&[]) {
            return Err(format!("step {n} hands {:x?} to the system, the server sent {sent:x?}", s.input));
        }
        if sent.is_some() && self.given.is_some() && s.context_in != self.given {
            return Err(format!("step {n} does not go on in the context of the step before"));
        }
        if a.ret >= 0 {
            self.given = s.context_in.or(s.contexts.last().copied());
        }
        if a.asks_completion() && a.ret >= 0 && completed != 1 {
            return Err(format!("step {n} completes the token {completed} times"));
        }
        o.state(&(n, a, s.context_in.is_some(), r.is_ok(), s.contexts.len()));
        match r {
            Ok(b) if a.fails() => return Err(format!("step {n} returns {} bytes although the system failed", b.len())),
            Ok(b) if b != s.produced => {
                let k = b.len().min(40);
                return Err(format!("step {n} returns {} bytes {:x?}..., the system produced {} bytes", b.len(), &b[..k], s.produced.len()));
            }
            Ok(_) => o.outcome("token"),
            Err(()) if a.fails() => o.outcome("error"),
            Err(()) => return Err(format!("step {n} fails although the system did not")),
        }
        Ok(())
    }
}

fn run(c: &Case, o: &mut Obs) -> Res {
    let mut s = Session::new(c, 0, o)?;
    for _ in 0..c.steps.len() {
        s.step(o)?;
    }
    Ok(())
}

/// Clients whose steps take turns as the bits of `order` say; the second is built when its turn comes.
fn run_two(c: &[Case; 2], order: u64, drop_first: bool, o: &mut Obs) -> Res {
    let mut s: [Option<Session>; 2] = [None, None];
    let n = c[0].steps.len() + c[1].steps.len() + 2;
    for k in 0..n {
        let mut who = (order >> k & 1) as usize;
        if s[who].as_ref().is_some_and(|s| s.at == s.steps.len()) {
            if drop_first {
                s[who].as_mut().unwrap().client = None;
            }
            who = 1 - who;
        }
        match &mut s[who] {
            None => s[who] = Some(Session::new(&c[who], 100 * who, o)?),
            Some(s) => s.step(o).map_err(|e| format!("client {who}: {e}"))?,
        }
    }
    Ok(())
}

/// C33: the steps, whatever comes of them, and what is released by the end.
fn run_released(c: &Case, release: i32, o: &mut Obs) -> Res {
    let mut s = Session {
        client: None,
        system: System {
            acquire: c.acquire,
            answers: c.steps.iter().map(|s| s.1).collect(),
            target: c.target.as_bytes().to_vec(),
            release,
            ..Default::default()
        },
        steps: c.steps.clone(),
        at: 0,
        given: None,
    };
    s.client = in_system(&mut s.system, || guard(|| WinClient::new(&c.target).ok())).unwrap_or(None);
    o.steps(1);
    o.outcome(if s.client.is_some() { "client" } else { "no client" });
    for (step, _) in &c.steps {
        let Some(client) = s.client.as_mut() else { break };
        let call = || {
            let r = match step {
                Step::Negotiate => client.negotiate(),
                Step::Challenge(len) => client.challenge(&vec![0x55; *len]),
            };
            r.is_ok()
        };
        let ok = in_system(&mut s.system, || guard(call));
        o.steps(1);
        o.outcome(if ok == Ok(true) { "token" } else { "error" });
        s.system.released(false)?;
        o.state(&(s.system.step, s.system.contexts.len(), s.system.deleted.len(), s.system.freed.len(), ok));
    }
    let client = s.client.take();
    in_system(&mut s.system, || guard(|| drop(client))).map_err(|e| format!("dropping the client panicked: {e}"))?;
    o.steps(1);
    s.system.released(true)?;
    o.outcome(if s.system.contexts.is_empty() { "without a context" } else { "with a context" });
    Ok(())
}

pub fn c33(deep: bool) -> Vec<Space> {
    let steps = |i: &mut Mix, n: u32, all: &[Answer]| -> Vec<(Step, Answer)> {
        (0..n).map(|_| (if i.flag() { Step::Challenge(48) } else { Step::Negotiate }, *i.of(all))).collect()
    };
    let all = answers(deep);
    let (n, one) = (all.len() as u64, all.clone());
    let few: Vec<Answer> = [(OK, OK), (CONTINUE, OK), (COMPLETE, OK), (COMPLETE, INTERNAL_ERROR), (COMPLETE_CONTINUE, OK), (COMPLETE_CONTINUE, INVALID_TOKEN), (LOGON_DENIED, OK), (INCOMPLETE, OK)]
        .map(|(ret, complete)| Answer { ret, len: 40, left: None, complete })
        .to_vec();
    let (k, depth) = (few.len() as u64, if deep { 6 } else { 4 });
    vec![
        Space::of(
            "every negotiate or challenge step x every answer of the system x answer to the release, up to two steps",
            2 * (1 + 2 * n).pow(2),
            move |i| {
                let mut m = Mix(i);
                let release = *m.of(&[OK, INTERNAL_ERROR]);
                let mut s = vec![];
                for _ in 0..2 {
                    match m.pick(1 + 2 * one.len()) {
                        0 => {}
                        x => s.push((if x % 2 == 0 { Step::Negotiate } else { Step::Challenge(48) }, one[(x - 1) / 2])),
                    }
                }
                (Case { target: "t".into(), acquire: OK, steps: s }, release)
            },
            |(c, release), o| run_released(c, *release, o),
        )
        .must_see(&["token", "error", "with a context", "without a context"]),
        Space::of(
            &format!("{depth} steps of eight kinds of answers x answer to the release"),
            2 * (2 * k).pow(depth),
            move |i| {
                let mut m = Mix(i);
                let release = *m.of(&[OK, INTERNAL_ERROR]);
                (Case { target: "http/server".into(), acquire: OK, steps: steps(&mut m, depth, &few) }, release)
            },
            |(c, release), o| run_released(c, *release, o),
        )
        .must_see(&["token", "error", "with a context", "without a context"]),
        Space::of(
            "results of acquiring credentials x targets x answer to the release x answer to a step",
            7 * 9 * 2 * (1 + n),
            move |i| {
                let mut m = Mix(i);
                let acquire = *m.of(&[OK, 1, INTERNAL_ERROR, INVALID_TOKEN, -1, i32::MIN, 0x8009_0305u32 as i32]);
                let target = *m.of(&["", "t", "http/é.example", "a\0b", "\0", "日本😀", " ", "a\0", "x\\y@z"]);
                let release = *m.of(&[OK, INTERNAL_ERROR]);
                let s = (m.0 > 0).then(|| (Step::Negotiate, all[m.0 as usize - 1]));
                (Case { target: target.into(), acquire, steps: s.into_iter().collect() }, release)
            },
            |(c, release), o| run_released(c, *release, o),
        )
        .must_see(&["client", "no client"]),
    ]
}

/// The answers of the system to one step.
fn answers(deep: bool) -> Vec<Answer> {
    let mut v = vec![];
    let lens: &[usize] = if deep { &[0, 1, 40, 2048, usize::MAX] } else { &[0, 40, usize::MAX] };
    for ret in [OK, CONTINUE, COMPLETE, COMPLETE_CONTINUE] {
        for len in lens {
            let a = Answer { ret, len: *len, left: None, complete: OK };
            v.push(a);
            if a.asks_completion() {
                v.push(Answer { complete: INVALID_TOKEN, ..a });
            }
        }
    }
    let errors: &[i32] = if deep { &[INTERNAL_ERROR, INVALID_TOKEN, LOGON_DENIED, INSUFFICIENT_MEMORY, BUFFER_TOO_SMALL, INCOMPLETE, -1, i32::MIN] } else { &[INVALID_TOKEN, LOGON_DENIED, INCOMPLETE] };
    for ret in errors {
        for (len, left) in [(0, None), (0, Some(0)), (100, Some(100)), (100, None), (0, Some(5))] {
            if deep || len == 0 || left.is_none() {
                v.push(Answer { ret: *ret, len, left, complete: OK });
            }
        }
    }
    v
}

pub fn c27(deep: bool) -> Vec<Space> {
    let all = answers(deep);
    let few = answers(false);
    let steps = |i: &mut Mix, n: u32, all: &[Answer], tokens: &[usize]| -> Vec<(Step, Answer)> {
        (0..n)
            .map(|_| {
                let k = i.pick(tokens.len() + 1);
                let s = if k == 0 { Step::Negotiate } else { Step::Challenge(tokens[k - 1]) };
                (s, *i.of(all))
            })
            .collect()
    };
    const TOKENS: &[usize] = &[0, 48, 12001];
    const ONE: &[usize] = &[48];
    let n = all.len() as u64;
    let f = few.len() as u64;
    let (a1, a2) = (all.clone(), few.clone());
    let mut v = vec![
        Space::of(
            &format!("every negotiate or challenge step x every answer of the system, {} steps", if deep { 3 } else { 2 }),
            (4 * n).pow(if deep { 3 } else { 2 }),
            move |i| Case { target: "http/server".into(), acquire: OK, steps: steps(&mut Mix(i), if deep { 3 } else { 2 }, &a1, TOKENS) },
            run,
        )
        .must_see(&["token", "error"]),
        Space::of(
            "steps with tokens of one size x every answer of the system, three steps",
            (2 * f).pow(3),
            move |i| Case { target: "t".into(), acquire: OK, steps: steps(&mut Mix(i), 3, &a2, ONE) },
            run,
        )
        .must_see(&["token", "error"]),
        Space::of(
            "lengths of tokens of server and system",
            12100 * 2 * 2,
            |i| {
                let mut m = Mix(i);
                let which = m.flag();
                let ret = *m.of(&[OK, COMPLETE]);
                let n = m.0 as usize;
                let a = |len| Answer { ret, len, left: None, complete: OK };
                let c = Answer { ret: CONTINUE, ..a(40) };
                Case {
                    target: "t".into(),
                    acquire: OK,
                    steps: vec![(Step::Negotiate, c), (Step::Challenge(if which { n } else { 32 }), a(if which { 64 } else { n }))],
                }
            },
            run,
        ),
        Space::of(
            "results of acquiring credentials x targets",
            7 * 9,
            |i| {
                let mut m = Mix(i);
                let acquire = *m.of(&[OK, 1, INTERNAL_ERROR, INVALID_TOKEN, -1, i32::MIN, 0x8009_0305u32 as i32]);
                let target = *m.of(&["", "t", "http/é.example", "a\0b", "\0", "日本😀", " ", "a\0", "x\\y@z"]);
                Case { target: target.into(), acquire, steps: vec![(Step::Negotiate, Answer { ret: CONTINUE, len: 40, left: None, complete: OK })] }
            },
            run,
        )
        .must_see(&["token", "no client"]),
    ];
    {
        // Longer histories of the answers that differ in kind
        let kinds: Vec<Answer> = [(OK, 40), (CONTINUE, 41), (COMPLETE, 42), (COMPLETE_CONTINUE, 43), (INVALID_TOKEN, 44), (LOGON_DENIED, 0)]
            .iter()
            .flat_map(|(ret, len)| {
                let a = Answer { ret: *ret, len: *len, left: None, complete: OK };
                if a.asks_completion() {
                    vec![a, Answer { complete: INTERNAL_ERROR, ..a }]
                } else {
                    vec![a]
                }
            })
            .collect();
        let k = kinds.len() as u64;
        let (depth, k2) = (if deep { 6 } else { 4 }, [0, 1, 2, 3, 6].map(|n| kinds[n]).to_vec());
        v.push(Space::of(
            &format!("{depth} steps of eight kinds of answers"),
            (2 * k).pow(depth),
            move |i| Case { target: "t".into(), acquire: OK, steps: steps(&mut Mix(i), depth, &kinds, ONE) },
            run,
        ));
        let each = if deep { 3 } else { 2 };
        let (orders, kk) = (1 << (2 * each + 2), (2 * k2.len() as u64).pow(each));
        v.push(
            Space::of(
                &format!("two clients of {each} steps of five kinds of answers x order x dropped early"),
                kk * kk * if deep { 8 } else { orders * 2 },
                move |i| {
                    let mut m = Mix(i);
                    let c = ["http/one", "http/two"].map(|t| Case { target: t.into(), acquire: OK, steps: steps(&mut m, each, &k2, ONE) });
                    // One after the other, in turns, one inside of the other
                    let order = if deep { *m.of(&[0b11110000, 0b10101010, 0b01111110, 0b11001100]) } else { m.pick(orders as usize) as u64 };
                    (c, order, m.flag())
                },
                |(c, order, early), o| run_two(c, *order, *early, o),
            )
            .must_see(&["token", "error"]),
        );
    }
    v
}
