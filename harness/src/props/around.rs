//! C32: nothing around a call changes what it does: neither logging nor where the standard streams
//! lead, nor anything else that is no input of it.

use super::hs::{departed_cases, Case};
use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use crate::real::*;
use crate::spec::*;
use log::LevelFilter;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug)]
enum Prog {
    Talk(Case),
    /// Decode, and encode what was decoded
    Code(Kind, Vec<u8>),
    /// Fill the list of a CHALLENGE from the environment
    Fill(Vec<Av>),
}

/// What the program yields; a panic is part of it.
fn perform(p: &Prog, shift: usize) -> Result<Vec<u8>, String> {
    with_room(31 * shift, || perform_here(p, shift))
}

fn perform_here(p: &Prog, shift: usize) -> Result<Vec<u8>, String> {
    match p {
        Prog::Talk(h) => {
            let body = || {
                let rng = Rng { key: h.key, dev: h.dev, first: h.first.clone(), ..Default::default() };
                with_rng(rng, || {
                    with_clock(h.clock.0, h.clock.1, || {
                        guard(|| {
                            let mut all = vec![];
                            let mut cl = client(h.level, &h.cr);
                            for (src, times) in &h.rounds {
                                all.extend(cl.negotiate());
                                // Decoded, whatever it is, in these surroundings
                                let c = src.real().map_err(|_| ());
                                let Ok(c) = c else {
                                    all.push(b'!');
                                    continue;
                                };
                                cl.challenge(c);
                                for _ in 0..*times {
                                    all.extend(cl.authenticate());
                                    all.extend(cl.session_key().unwrap_or([0; 16]));
                                }
                            }
                            all
                        })
                    })
                })
                .0
            };
            match &h.ws {
                None => body(),
                Some(name) => with_hostname(Err(libc::ENOENT), || with_computername(name.as_deref(), body)),
            }
        }
        Prog::Code(kind, bytes) => guard(|| match dec(*kind, &[&vec![0xa5; shift][..], bytes, &vec![0xa5; shift]].concat()[shift..shift + bytes.len()]) {
            None => b"refused".to_vec(),
            Some(m) => {
                let mut all = fx(&format!("{m:?}")).to_le_bytes().to_vec();
                if let Ok((b, n)) = guard(|| enc(&m)) {
                    all.extend(b);
                    all.extend(n.to_le_bytes());
                }
                all
            }
        }),
        Prog::Fill(infos) => guard(|| {
            let c = Chal { flags: base_flags(), name: some("S"), sc: pattern(0x81), infos: infos.clone(), ver: None };
            let mut r = chal_r(&c);
            r.fill_from_env();
            format!("{:?}", chal_m(&r)).into_bytes()
        }),
    }
}

/// What the thread is doing.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Thread {
    Usual,
    Named,
    /// The call comes from a destructor while the thread unwinds
    Unwinding,
    /// The call comes from a destructor of the thread's own data, after a first one in its life
    Ending,
}

#[derive(Clone, Debug)]
struct Around {
    odd: Odd,
    thread: Thread,
    /// The message begins so many bytes behind the start of an allocation, and texts have room behind their end
    shift: usize,
}

/// A logger that uses the library itself.
fn another() {
    thread_local! {
        static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    if BUSY.with(|b| b.replace(true)) {
        return;
    }
    // The stand-ins keep what they have given so far
    let mut c = client(3, &creds("Logger", "Other", "Secret"));
    c.negotiate();
    let chal = Chal { flags: base_flags(), name: some("L"), sc: pattern(0x11), infos: short_infos(), ver: None };
    if let Some(r) = dec_chal_real(&encode(&Msg::Chal(chal))) {
        let _ = enc(&Msg::Chal(chal_m(&r)));
        c.challenge(r);
    }
    BUSY.with(|b| b.set(false));
}

fn run_in(p: &Prog, a: &Around) -> (Result<Vec<u8>, String>, Vec<u8>) {
    let here = || with_odd(a.odd.clone(), || perform(p, a.shift));
    match a.thread {
        Thread::Usual => here(),
        Thread::Named => std::thread::scope(|s| std::thread::Builder::new().name("ntlm worker é".into()).stack_size(1 << 20).spawn_scoped(s, here).unwrap().join().unwrap()),
        Thread::Unwinding => {
            struct Last<F: FnMut()>(F);
            impl<F: FnMut()> Drop for Last<F> {
                fn drop(&mut self) {
                    assert!(std::thread::panicking());
                    (self.0)();
                }
            }
            let mut out = None;
            let _ = guard(|| {
                let _last = Last(|| out = Some(here()));
                panic!("unwinding");
            });
            out.unwrap()
        }
        Thread::Ending => {
            struct End(Option<Box<dyn FnOnce()>>);
            impl Drop for End {
                fn drop(&mut self) {
                    (self.0.take().unwrap())();
                }
            }
            thread_local! {
                static END: std::cell::RefCell<Option<End>> = const { std::cell::RefCell::new(None) };
            }
            let (p, odd) = (p.clone(), a.odd.clone());
            let (tx, rx) = std::sync::mpsc::channel();
            let t = std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    // The stand-ins' own data outlives this destructor, that of the code under test does not
                    let _ = guard(|| panic!("first"));
                    touch();
                    let q = p.clone();
                    END.with(|e| *e.borrow_mut() = Some(End(Some(Box::new(move || tx.send(with_odd(odd, || perform(&p, 0))).unwrap())))));
                    let _ = perform(&q, 0);
                })
                .unwrap();
            t.join().unwrap();
            rx.recv().unwrap()
        }
    }
}

/// The programs of one space with what they yield in plain surroundings.
struct Set {
    len: u64,
    prog: Box<dyn Fn(u64) -> Prog + Send + Sync>,
    plain: OnceLock<Vec<u64>>,
}
impl Set {
    fn new(len: u64, prog: impl Fn(u64) -> Prog + Send + Sync + 'static) -> Arc<Set> {
        Arc::new(Set { len, prog: Box::new(prog), plain: OnceLock::new() })
    }
    fn result(r: &Result<Vec<u8>, String>) -> u64 {
        match r {
            Ok(b) => fx(b),
            Err(_) => 1,
        }
    }
    /// Without logging.
    fn settle(&self) -> &[u64] {
        self.plain.get_or_init(|| {
            log::set_max_level(LevelFilter::Off);
            let threads = std::thread::available_parallelism().map_or(8, |n| n.get()) as u64;
            let part = self.len.div_ceil(threads);
            let mut v = vec![];
            std::thread::scope(|s| {
                let all: Vec<_> = (0..threads)
                    .map(|t| {
                        s.spawn(move || {
                            (t * part..((t + 1) * part).min(self.len)).map(|i| Self::result(&perform(&(self.prog)(i), 0))).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                for t in all {
                    v.extend(t.join().unwrap());
                }
            });
            v
        })
    }
}

fn space(name: &str, set: &Arc<Set>, arounds: Vec<Around>, level: LevelFilter) -> Space {
    let (s, a) = (set.clone(), Arc::new(arounds));
    let (s2, a2) = (s.clone(), a.clone());
    let s3 = s.clone();
    let n = a.len();
    Space::new(
        &format!("{name}, logging {level}"),
        s.len * n as u64,
        move |i| {
            let mut d = format!("{:?} in {:?}", (s.prog)(i / n as u64), a[(i % n as u64) as usize]);
            if d.len() > 6000 {
                let mut cut = 6000;
                while !d.is_char_boundary(cut) {
                    cut -= 1;
                }
                d.truncate(cut);
            }
            d
        },
        move |i, o| {
            let (at, a) = (i / n as u64, &a2[(i % n as u64) as usize]);
            let want = s2.settle()[at as usize];
            let p = (s2.prog)(at);
            let (r, written) = run_in(&p, a);
            o.steps(1);
            o.state(&Set::result(&r));
            if Set::result(&r) != want {
                let plain = match want {
                    1 => "panics".to_string(),
                    _ => format!("has another result (hash {want:x})"),
                };
                return Err(match r {
                    Err(e) => format!("panicked ({e}), which in plain surroundings {plain}"),
                    Ok(b) => format!("yields {:x?}, which in plain surroundings {plain}", &b[..b.len().min(400)]),
                });
            }
            if !written.is_empty() {
                return Err(format!("wrote to the standard streams: {:?}", String::from_utf8_lossy(&written[..written.len().min(200)])));
            }
            o.outcome(if r.is_err() { "panic" } else { "same" });
            Ok(())
        },
    )
    .setup(move || {
        s3.settle();
        log::set_max_level(level);
    })
    .must_see(&["same"])
}

fn usual() -> Around {
    Around { odd: Odd::default(), thread: Thread::Usual, shift: 0 }
}

fn surroundings(deep: bool) -> Vec<Around> {
    let mut v = vec![usual()];
    let mut put = |odd: Odd| v.push(Around { odd, thread: Thread::Usual, shift: 0 });
    let mut faults: Vec<Fault> = [libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EBADF, libc::EAGAIN, libc::EINTR].iter().map(|e| Fault::Errno(*e)).collect();
    faults.extend([Fault::Zero, Fault::Short(1)]);
    for f in &faults {
        for from in 0..if deep { 4 } else { 2 } {
            put(Odd { streams: Some((from, *f)), ..Default::default() });
        }
    }
    for var in [c"", c"0", c"1", c"true", c"off", c"DEBUG", c"NT4", c"3", c"C.UTF-8", c"tr_TR.ISO-8859-9", c"\xff\xfe", c"/nonexistent", c"LONGER-THAN-A-NETBIOS-NAME.example.org"] {
        put(Odd { var: Some(var), ..Default::default() });
    }
    for content in ["", "1", "true\n", "DOM", "[libdefaults]\nworkstation = EVIL\n", "search corp.example\nnameserver 127.0.0.1\n"] {
        put(Odd { file: Some(Ok(content.into())), ..Default::default() });
    }
    for e in [libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO] {
        put(Odd { file: Some(Err(e)), ..Default::default() });
    }
    for t in [0, 1, 60, 4_294_967_296] {
        put(Odd { uptime: Some(t), ..Default::default() });
    }
    for id in [0, 1, 1000, i32::MAX as u32] {
        put(Odd { ids: Some(id), ..Default::default() });
    }
    for host in [Ok(c"host"), Ok(c""), Ok(c"\xff"), Err(libc::ENOENT), Err(libc::EPERM)] {
        put(Odd { host: Some(host), ..Default::default() });
    }
    for errno in [libc::EINTR, libc::EIO, libc::ERANGE] {
        put(Odd { errno, ..Default::default() });
    }
    // All at once
    put(Odd {
        streams: Some((0, Fault::Errno(libc::EPIPE))),
        var: Some(c"1"),
        file: Some(Ok("1\n".into())),
        uptime: Some(0),
        ids: Some(1),
        host: Some(Ok(c"host")),
        errno: libc::EIO,
        logger: None,
    });
    put(Odd { logger: Some(another), ..Default::default() });
    for shift in 1..if deep { 17 } else { 9 } {
        v.push(Around { shift, ..usual() });
    }
    for thread in [Thread::Named, Thread::Unwinding, Thread::Ending] {
        v.push(Around { odd: Odd::default(), thread, shift: 0 });
    }
    v
}

/// Well-formed messages with one byte changed, cut, or followed by something.
fn codings(deep: bool) -> Vec<(Kind, Vec<u8>)> {
    let mut v = vec![];
    for (_, m) in base_msgs() {
        let b = encode(&m);
        v.push((m.kind(), b.clone()));
        for i in 0..b.len() {
            let values: &[u8] = &[b[i] ^ 1, b[i] ^ 0x80, 0, 0xff, b[i].wrapping_add(2), 0x20, 0x7f];
            for x in &values[..if deep { 7 } else { 4 }] {
                let mut c = b.clone();
                c[i] = *x;
                v.push((m.kind(), c));
            }
            v.push((m.kind(), b[..i].to_vec()));
        }
        v.push((m.kind(), [&b[..], b"tail"].concat()));
        for kind in [Kind::Neg, Kind::Chal, Kind::Auth] {
            v.push((kind, b.clone()));
        }
    }
    v
}

pub fn c32(deep: bool) -> Vec<Space> {
    use LevelFilter::*;
    let mut v = vec![];
    const ALL: &[u32] = &[0, 1, 2, 3, 4, 5];
    let talks = {
        let (n, case) = departed_cases(ALL, 2, deep);
        Set::new(n, move |i| Prog::Talk(case(i)))
    };
    let few = {
        let (n, case) = departed_cases(ALL, 1, deep);
        Set::new(n, move |i| Prog::Talk(case(i)))
    };
    let codes = {
        let all = codings(deep);
        Set::new(all.len() as u64, move |i| Prog::Code(all[i as usize].0, all[i as usize].1.clone()))
    };
    let fills = {
        let lists: Vec<Vec<Av>> = vec![vec![], short_infos(), full_infos(), vec![name(1, "X")]];
        Set::new(lists.len() as u64, move |i| Prog::Fill(lists[i as usize].clone()))
    };
    let broken = Around { odd: Odd { streams: Some((0, Fault::Errno(libc::EPIPE))), ..Default::default() }, thread: Thread::Usual, shift: 0 };
    for level in [Off, Error, Warn, Info, Debug, Trace] {
        v.push(space("level x every 2 or fewer departures from the usual handshake", &talks, vec![usual()], level));
        v.push(space("decoding and encoding of messages with a byte changed or cut", &codes, vec![broken.clone()], level));
    }
    for level in [Off, Trace] {
        let around = surroundings(deep);
        let n = around.len();
        v.push(space(&format!("level x at most one departure from the usual handshake x {n} surroundings"), &few, around.clone(), level));
        v.push(space(&format!("decoding and encoding x {n} surroundings"), &codes, around.clone(), level));
        v.push(space(&format!("filling from the environment x {n} surroundings"), &fills, around, level));
    }
    v
}
