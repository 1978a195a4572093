//! Sequences of calls of one client, and interleavings of several.

use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use crate::props::hs::{departed_cases, fresh, ticks, usual, Case, Departed, Src, NOW};
use crate::real::*;
use crate::server;
use crate::spec::bit::*;
use crate::spec::*;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::OnceLock;

/// CHALLENGE messages which differ in everything a client looks at.
pub fn chals() -> &'static [Chal] {
    static C: OnceLock<Vec<Chal>> = OnceLock::new();
    C.get_or_init(|| {
        let b = base_flags();
        let c = |flags: u32, name: Option<String>, sc: u8, infos: Vec<Av>| Chal { flags, name, sc: pattern(sc), infos, ver: has(flags, VERSION).then(ver) };
        let mut v = vec![
            c(b, some("Server"), 0x81, short_infos()),
            c(b & !bits(&[ESS, TARGET_INFO]) | bits(&[LM_KEY, VERSION]), some("Other"), 0x13, vec![]),
            c(b & !bits(&[KEY_EXCH]) | bits(&[TYPE_SERVER]), None, 0x35, full_infos()),
            c(b & !bits(&[ESS, SIGN, SEAL, UNICODE]) | bits(&[NON_NT, OEM]), some("A longer name of a server, with é and 😀"), 0x57, vec![name(1, &"N".repeat(300)), Av::Eol]),
            // The server challenge of the first one, and all else different
            c(b & !bits(&[KEY_EXCH, N56]), some("Third"), 0x81, vec![name(2, "Elsewhere"), Av::Time(0x01d9_1234_5678_9abc), Av::Eol]),
        ];
        // One flag changed, with and without name and target information
        for base in [b, b & !bits(&[ESS]) | bits(&[LM_KEY, VERSION, OEM])] {
            for k in 0..32 {
                for content in 0..4 {
                    v.push(c(base ^ 1 << k, (content & 1 == 0).then(|| "Flagged".into()), 0x66, if content & 2 == 0 { short_infos() } else { vec![] }));
                }
            }
        }
        v
    })
}
/// The first of them with one flag changed
const FLAGGED: usize = 5;
/// Behind them, those with departures from the usual one
const DEPARTED: usize = FLAGGED + 2 * 32 * 4;
pub fn departed() -> &'static Departed {
    static D: OnceLock<Departed> = OnceLock::new();
    D.get_or_init(Departed::new)
}
fn chal(i: usize) -> Chal {
    if i < DEPARTED {
        chals()[i].clone()
    } else {
        departed().get(i - DEPARTED)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Negotiate,
    Challenge(usize),
    Authenticate,
    /// The random source fails
    Fail,
    /// The random source fails after it delivered the client challenge
    FailLate,
}
use Op::*;

/// Calls, written short.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Ops(Vec<Op>);
impl std::fmt::Debug for Ops {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.0.len() <= 24 {
            return self.0.fmt(f);
        }
        write!(f, "{} calls {:?} ...", self.0.len(), &self.0[..24])
    }
}
impl std::ops::Deref for Ops {
    type Target = [Op];
    fn deref(&self) -> &[Op] {
        &self.0
    }
}

fn rng_of(op: Op, n: usize) -> Rng {
    let mut r = rng_key(n as u64 + 11);
    match op {
        Fail => r.fail_from = Some(0),
        FailLate => r.fail_from = Some(1),
        _ => {}
    }
    r
}

/// Performs one call; the message it sent, or `None` if there is none or it was refused.
fn perform(cl: &mut Box<dyn Cl>, op: Op, rng: Rng, clock: (i64, i64)) -> (Result<Option<Vec<u8>>, String>, Rng) {
    with_rng(rng, || {
        with_clock(clock.0, clock.1, || {
            guard(|| match op {
                Negotiate => Some(cl.negotiate()),
                Challenge(i) => {
                    cl.challenge(chal_r(&chal(i)));
                    None
                }
                Authenticate | Fail | FailLate => Some(cl.authenticate()).filter(|b| !b.is_empty()),
            })
        })
    })
}

/// One call with the usual clock and a random source of its own; what it sent, or the text of a panic.
pub fn perform_plain(cl: &mut Box<dyn Cl>, op: Op, chal: &dyn Fn(usize) -> Chal, n: usize) -> Result<Option<Vec<u8>>, String> {
    with_rng(rng_of(op, n), || {
        with_clock(NOW.0, NOW.1, || {
            guard(|| match op {
                Negotiate => Some(cl.negotiate()),
                Challenge(i) => {
                    cl.challenge(chal_r(&chal(i)));
                    None
                }
                Authenticate | Fail | FailLate => Some(cl.authenticate()),
            })
        })
    })
    .0
}

/// Every word of up to `len` calls.
pub fn short_words(len: u32) -> Vec<Vec<Op>> {
    const OPS: [Op; 5] = [Negotiate, Challenge(0), Authenticate, Fail, FailLate];
    (1..seq_count(5, len)).map(|i| seq_at(5, i).into_iter().map(|l| OPS[l]).collect()).collect()
}

/// The reference handshake automaton.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum At {
    New,
    Negotiated,
    Accepted(usize),
    Answered(usize),
}
impl At {
    fn challenge(self) -> Option<usize> {
        match self {
            At::Accepted(i) | At::Answered(i) => Some(i),
            _ => None,
        }
    }
}

/// Is the message an answer to this CHALLENGE?
fn answers(level: u32, cr: &Creds, chal: &Chal, now: u64, bytes: &[u8]) -> Res {
    let m = parse(Kind::Auth, bytes).map_err(|e| format!("the AUTHENTICATE message is malformed: {e}"))?;
    let k = server::keys(&cr.password, &cr.user, &cr.domain);
    if level <= 2 {
        server::verify_v1(level, chal.flags, &k, &chal.sc, m.auth())
    } else {
        server::verify_v2(&k, chal, now, bytes)
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug)]
struct Calls {
    level: u32,
    ops: Ops,
}

/// What is out of order has no effect: every message is that of a client which never saw the ignored CHALLENGE messages.
fn run_order_and_without(c: &Calls, o: &mut Obs) -> Res {
    run_order(c, o)?;
    let cr = usual();
    let (mut a, mut b) = (client(c.level, &cr), client(c.level, &cr));
    let mut negotiated = false;
    for (n, op) in c.ops.iter().enumerate() {
        let taken = match op {
            Negotiate => {
                negotiated = true;
                true
            }
            Challenge(_) => std::mem::replace(&mut negotiated, false),
            _ => true,
        };
        let (x, _) = perform(&mut a, *op, rng_of(*op, n), NOW);
        if !taken {
            continue;
        }
        let (y, _) = perform(&mut b, *op, rng_of(*op, n), NOW);
        o.steps(2);
        if x.clone().ok() != y.clone().ok() {
            return Err(format!("call {n} of {:?} gives {x:x?}, without the CHALLENGE messages out of order {y:x?}", c.ops));
        }
        if matches!(op, Authenticate) && a.session_key() != b.session_key() {
            return Err(format!("after call {n} of {:?} the session key depends on a CHALLENGE out of order", c.ops));
        }
    }
    Ok(())
}

fn run_order(c: &Calls, o: &mut Obs) -> Res {
    let cr = usual();
    let mut cl = client(c.level, &cr);
    let mut at = At::New;
    let now = ticks(NOW.0, NOW.1);
    let mut last = 0;
    for (n, op) in c.ops.iter().enumerate() {
        let fail = |e: String| Err(format!("call {n} of {:?} in state {at:?}: {e}", c.ops));
        let (r, after) = perform(&mut cl, *op, rng_of(*op, n), NOW);
        o.steps(1);
        match op {
            Negotiate => {
                match r {
                    Ok(Some(b)) => {
                        if let Err(e) = parse(Kind::Neg, &b) {
                            return fail(format!("the NEGOTIATE message is malformed: {e}"));
                        }
                    }
                    Ok(None) => return fail("no NEGOTIATE message".into()),
                    Err(e) => return fail(format!("send_negociate panicked: {e}")),
                }
                at = At::Negotiated;
            }
            Challenge(i) => {
                if let Err(e) = r {
                    return fail(format!("recv_challenge panicked: {e}"));
                }
                if at == At::Negotiated {
                    o.outcome("challenge accepted");
                    at = At::Accepted(*i);
                } else {
                    o.outcome("challenge ignored");
                }
            }
            Authenticate | Fail | FailLate => {
                let failed = after.fail_from.is_some_and(|k| after.calls > k);
                match (at.challenge(), r) {
                    (None, Ok(Some(b))) => return fail(format!("an AUTHENTICATE message without an accepted challenge: {b:x?}")),
                    (Some(_), Ok(Some(_))) if failed => return fail("an AUTHENTICATE message although the random source failed".into()),
                    (Some(i), Ok(Some(b))) => {
                        o.outcome("answered");
                        if let Err(e) = answers(c.level, &cr, &chal(i), now, &b) {
                            return fail(format!("the AUTHENTICATE message does not answer challenge {i}: {e}"));
                        }
                        last = fx(&b);
                        at = At::Answered(i);
                    }
                    (Some(_), Ok(None)) if !failed => return fail("no AUTHENTICATE message".into()),
                    (Some(_), Err(e)) if !failed => return fail(format!("send_authenticate panicked: {e}")),
                    _ => o.outcome("refused"),
                }
            }
        }
        o.state(&(c.level, at, last));
    }
    Ok(())
}

fn orders(alphabet: &'static [Op], depth: u32) -> Space {
    let k = alphabet.len() as u64;
    Space::of(
        &format!("level x every sequence of {depth} calls of {}", names_of(alphabet)),
        6 * k.pow(depth),
        move |i| {
            let mut m = Mix(i);
            let level = m.pick(6) as u32;
            Calls { level, ops: Ops((0..depth).map(|_| *m.of(alphabet)).collect()) }
        },
        run_order,
    )
    .must_see(&["challenge accepted", "challenge ignored", "answered", "refused"])
}

/// Every short word of calls, repeated.
fn words(len: u32) -> Vec<Vec<Op>> {
    const OPS: [Op; 4] = [Negotiate, Challenge(0), Challenge(1), Authenticate];
    (1..seq_count(4, len)).map(|i| seq_at(4, i).into_iter().map(|l| OPS[l]).collect()).collect()
}
fn repeated(word: &[Op], n: usize) -> Vec<Op> {
    let start = if word.contains(&Negotiate) { vec![] } else { vec![Negotiate, Challenge(0)] };
    start.into_iter().chain(word.iter().cycle().take(n * word.len()).copied()).collect()
}
/// Long enough for a counter of a byte, or of two bytes, to turn over.
fn long_words(deep: bool) -> Vec<(Vec<Op>, usize)> {
    let mut v: Vec<_> = words(4).into_iter().map(|w| (w, 300)).collect();
    if deep {
        v.extend(words(3).into_iter().map(|w| (w, 66_000)));
    }
    v
}

fn names_of(a: &[Op]) -> String {
    a.iter()
        .map(|o| match o {
            Negotiate => "N".to_string(),
            Challenge(i) => format!("C{i}"),
            Authenticate => "A".into(),
            Fail => "A?".into(),
            FailLate => "A??".into(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn c16(deep: bool) -> Vec<Space> {
    let (two, three) = (departed().two, departed().len());
    vec![
        Space::of(
            "level x CHALLENGE with three departures from the usual one",
            6 * (three - two) as u64,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                Calls { level, ops: Ops(vec![Negotiate, Challenge(DEPARTED + two + m.0 as usize), Authenticate]) }
            },
            run_order,
        ),
        Space::of(
            "level x CHALLENGE with up to two departures from the usual one x order of calls",
            6 * two as u64 * 6,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let order = m.pick(6);
                let x = Challenge(DEPARTED + m.pick(two));
                let c = Challenge(0);
                let ops = match order {
                    0 => vec![Negotiate, x, Authenticate, Authenticate],
                    1 => vec![x, Authenticate, Negotiate, x, x, Authenticate],
                    2 => vec![Negotiate, c, x, Authenticate, x, Authenticate],
                    3 => vec![Negotiate, x, c, Authenticate, c, Authenticate],
                    4 => vec![Negotiate, x, Authenticate, Negotiate, Authenticate, c, Authenticate],
                    _ => vec![Negotiate, c, Authenticate, Negotiate, x, FailLate, Authenticate, c, Authenticate],
                };
                Calls { level, ops: Ops(ops) }
            },
            run_order_and_without,
        )
        .must_see(&["challenge accepted", "challenge ignored", "answered", "refused"]),
        Space::of(
            "level x two CHALLENGE messages that differ in one respect x order of calls",
            6 * departed().pairs.len() as u64 * 4,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let order = m.pick(2);
                let swap = m.flag();
                let (x, y) = *m.of(&departed().pairs);
                let (x, y) = if swap { (y, x) } else { (x, y) };
                let (x, y) = (Challenge(DEPARTED + x), Challenge(DEPARTED + y));
                let ops = match order {
                    0 => vec![Negotiate, x, y, Authenticate, y, Authenticate],
                    _ => vec![Negotiate, x, Authenticate, y, Authenticate, Negotiate, y, x, Authenticate, x, Authenticate],
                };
                Calls { level, ops: Ops(ops) }
            },
            run_order_and_without,
        )
        .must_see(&["challenge accepted", "challenge ignored", "answered"]),
        orders(&[Negotiate, Challenge(0), Challenge(1), Authenticate], if deep { 10 } else { 9 }),
        orders(&[Negotiate, Challenge(0), Challenge(3), Challenge(2), Authenticate, Fail, FailLate], if deep { 7 } else { 6 }),
        {
            let words = long_words(deep);
            Space::of(
                "level x every short word of calls, repeated",
                6 * words.len() as u64,
                move |i| {
                    let mut m = Mix(i);
                    let level = m.pick(6) as u32;
                    let (w, n) = m.of(&words);
                    Calls { level, ops: Ops(repeated(w, *n)) }
                },
                run_order,
            )
        },
    ]
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug)]
struct Reuse {
    level: u32,
    cr: Creds,
    history: Ops,
    last: usize,
}

fn final_messages(cl: &mut Box<dyn Cl>, last: usize) -> Result<Vec<Vec<u8>>, String> {
    let clock = (1_800_000_456, 123_456_700);
    let mut out = vec![];
    for (n, op) in [Negotiate, Challenge(last), Authenticate, Authenticate].into_iter().enumerate() {
        let (r, _) = perform(cl, op, rng_key(100 + n as u64), clock);
        if let Some(b) = r.map_err(|e| format!("{op:?} panicked: {e}"))? {
            out.push(b);
        }
    }
    let key = cl.session_key().map(|k| k.to_vec()).unwrap_or_default();
    out.push(key);
    Ok(out)
}

fn run_reuse(c: &Reuse, o: &mut Obs) -> Res {
    let mut used = client(c.level, &c.cr);
    let mut sent = vec![];
    for (n, op) in c.history.iter().enumerate() {
        let (r, _) = perform(&mut used, *op, rng_of(*op, n), NOW);
        if let Ok(Some(b)) = r {
            sent.push(b);
        } else if r.is_err() {
            o.outcome("refused before");
        }
        o.steps(1);
    }
    let mut fresh = client(c.level, &c.cr);
    let want = final_messages(&mut fresh, c.last)?;
    let got = final_messages(&mut used, c.last).map_err(|e| format!("after {:?}: {e}", c.history))?;
    o.steps(4);
    o.state(&(c.level, &sent, &got));
    if got != want {
        return Err(format!("after {:?} the client sends {got:x?}, a new one sends {want:x?}", c.history));
    }
    o.outcome("same as a new client");
    Ok(())
}

/// A client that made the handshake, and then the usual one (0), the same (1) or another one (2).
#[derive(Clone, Debug)]
struct ReuseAny {
    h: Case,
    then: usize,
}

fn run_reuse_any(c: &ReuseAny, o: &mut Obs) -> Res {
    let h = &c.h;
    let body = |o: &mut Obs| {
        let handshake = |cl: &mut Box<dyn Cl>, src: &Src, times: usize, n: u64, o: &mut Obs| -> Result<Vec<Vec<u8>>, String> {
            let rng = Rng { key: n, dev: h.dev, first: h.first.clone(), ..Default::default() };
            o.steps(2 + times as u64);
            let (r, _) = with_rng(rng, || {
                with_clock(h.clock.0 + n as i64, h.clock.1, || {
                    let chal = src.real()?;
                    guard(|| {
                        let mut sent = vec![cl.negotiate()];
                        cl.challenge(chal);
                        for _ in 0..times {
                            sent.push(cl.authenticate());
                        }
                        sent.push(cl.session_key().map(|k| k.to_vec()).unwrap_or_default());
                        sent
                    })
                })
            });
            r
        };
        let last = match c.then {
            0 => Src::Built(chal(0)),
            1 => h.rounds.last().unwrap().0.clone(),
            _ => Src::Built(chal(1)),
        };
        let mut used = client(h.level, &h.cr);
        for (n, (src, times)) in h.rounds.iter().enumerate() {
            handshake(&mut used, src, *times, n as u64, o)?;
        }
        let mut fresh = client(h.level, &h.cr);
        let want = handshake(&mut fresh, &last, 2, 100, o)?;
        let got = handshake(&mut used, &last, 2, 100, o).map_err(|e| format!("a used client: {e}"))?;
        o.state(&(h.level, fx(&got), c.then));
        if got != want {
            return Err(format!("the used client sends {got:x?}, a new one sends {want:x?}"));
        }
        Ok(())
    };
    match &h.ws {
        None => body(o),
        Some(name) => with_hostname(Err(libc::ENOENT), || with_computername(name.as_deref(), || body(o))),
    }
}

pub fn c17(deep: bool) -> Vec<Space> {
    const ALL: &[Op] = &[Negotiate, Challenge(0), Challenge(1), Challenge(2), Challenge(3), Authenticate, Fail, FailLate];
    const FEW_OPS: &[Op] = &[Negotiate, Challenge(1), Challenge(2), Authenticate];
    let mk = |alphabet: &'static [Op], depth: u32| {
        let k = alphabet.len() as u64;
        let n = seq_count(k, depth);
        Space::of(
            &format!("level x every history of up to {depth} calls of {} x the CHALLENGE after it", names_of(alphabet)),
            6 * 4 * n,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let last = m.pick(4);
                Reuse { level, cr: usual(), history: Ops(seq_at(k, m.0).into_iter().map(|l| alphabet[l]).collect()), last }
            },
            run_reuse,
        )
        .must_see(&["refused before", "same as a new client"])
    };
    let nm = names();
    let hist: Vec<Vec<Op>> = (0..seq_count(4, 4)).map(|i| seq_at(4, i).into_iter().map(|l| FEW_OPS[l]).collect()).collect();
    let same = if deep { 8 } else { 6 };
    let flagged = DEPARTED - FLAGGED;
    let two = departed().two;
    let words = long_words(deep);
    vec![
        Space::of(
            "level x every short word of calls, repeated",
            6 * words.len() as u64,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let (w, n) = m.of(&words);
                Reuse { level, cr: usual(), history: Ops(repeated(w, *n)), last: 2 }
            },
            run_reuse,
        ),
        mk(ALL, if deep { 6 } else { 5 }),
        mk(FEW_OPS, if deep { 9 } else { 7 }),
        Space::of(
            &format!("level x every history of up to {same} calls of N C0 C4 A, where C0 and C4 have the same server challenge"),
            6 * 2 * seq_count(4, same),
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let last = [0, 4][m.pick(2)];
                const OPS: [Op; 4] = [Negotiate, Challenge(0), Challenge(4), Authenticate];
                Reuse { level, cr: usual(), history: Ops(seq_at(4, m.0).into_iter().map(|l| OPS[l]).collect()), last }
            },
            run_reuse,
        ),
        Space::of(
            "level x account x CHALLENGE with one flag changed x what was called x the CHALLENGE after it",
            6 * 4 * flagged as u64 * 6 * 4,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let (u, d, p) = *m.of(&[("User", "Domäin", "Pässword😀"), ("user", "", "pw"), ("", "DOM", ""), ("", "", "")]);
                let x = FLAGGED + m.pick(flagged);
                let history = match m.pick(6) {
                    0 => vec![Negotiate, Challenge(x)],
                    1 => vec![Negotiate, Challenge(x), Authenticate],
                    2 => vec![Negotiate, Challenge(x), Authenticate, Authenticate],
                    3 => vec![Negotiate, Challenge(x), Authenticate, Negotiate],
                    4 => vec![Negotiate, Challenge(x), FailLate],
                    _ => vec![Negotiate, Challenge(x), Authenticate, Negotiate, Challenge(x), Authenticate],
                };
                let last = *m.of(&[0, 1, 2, x]);
                Reuse { level, cr: creds(u, d, p), history: Ops(history), last }
            },
            run_reuse,
        ),
        Space::of(
            "level x CHALLENGE with up to two departures from the usual one x what was called x the CHALLENGE after it",
            6 * two as u64 * 3 * 2,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let x = DEPARTED + m.pick(two);
                let history = match m.pick(3) {
                    0 => vec![Negotiate, Challenge(x)],
                    1 => vec![Negotiate, Challenge(x), Authenticate, Authenticate],
                    _ => vec![Negotiate, Challenge(1), Authenticate, Negotiate, Challenge(x), FailLate],
                };
                let last = *m.of(&[0, 1]);
                Reuse { level, cr: usual(), history: Ops(history), last }
            },
            run_reuse,
        ),
        Space::of(
            "level x two CHALLENGE messages that differ in one respect: one answered, then the other",
            6 * 4 * departed().pairs.len() as u64,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let (swap, sent) = (m.flag(), m.flag());
                let (x, y) = *m.of(&departed().pairs);
                let (x, y) = if swap { (y, x) } else { (x, y) };
                let mut history = vec![Negotiate, Challenge(DEPARTED + x)];
                if sent {
                    history.push(Authenticate);
                }
                Reuse { level, cr: usual(), history: Ops(history), last: DEPARTED + y }
            },
            run_reuse,
        ),
        {
            let (n, case) = departed_cases(&[0, 1, 2, 3, 4, 5], 2, deep);
            Space::of(
                "level x every few departures from the usual handshake, and the usual one, the same or another one after it",
                n * 3,
                move |i| ReuseAny { h: case(i / 3), then: (i % 3) as usize },
                run_reuse_any,
            )
        },
        {
            // More departures at once, followed by one of the three, in turn
            let (n, case) = departed_cases(&[0, 1, 2, 3, 4, 5], if deep { 3 } else { 1 }, deep);
            Space::of(
                "level x every few departures from the usual handshake, and in turn the usual one, the same or another one after it",
                n,
                move |i| ReuseAny { h: case(i), then: (i / 6 % 3) as usize },
                run_reuse_any,
            )
        },
        Space::of(
            "level x names as user and domain x histories of up to 4 calls",
            6 * nm.len() as u64 * hist.len() as u64 * 2,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let n = m.of(&nm).clone();
                let history = m.of(&hist).clone();
                let cr = if m.flag() { creds(&n, "Dom", "pw") } else { creds("user", &n, "pw") };
                Reuse { level, cr, history: Ops(history), last: 0 }
            },
            run_reuse,
        ),
    ]
}

// ---------------------------------------------------------------- C20

/// The values of a message which come from the random source: client challenge and session key.
fn random_values(level: u32, chal: &Chal, cr: &Creds, bytes: &[u8]) -> Result<Vec<(&'static str, Vec<u8>)>, String> {
    let m = parse(Kind::Auth, bytes).map_err(|e| format!("the AUTHENTICATE message is malformed: {e}"))?;
    let a = m.auth();
    let k = server::keys(&cr.password, &cr.user, &cr.domain);
    let mut v = vec![];
    match (&a.lm, &a.nt) {
        (Some(Lm::V1(l)), _) if has(chal.flags, ESS) => v.push(("client challenge", l[..8].to_vec())),
        (Some(Lm::V2(l)), Some(Nt::V2R(_, b))) if level > 2 => {
            v.push(("client challenge", l[16..].to_vec()));
            v.push(("client challenge of the NT response", b.cc.to_vec()));
        }
        _ => {}
    }
    if server::exchanges_key(chal.flags) {
        v.push(("session key", server::session_key(chal.flags, &k, &chal.sc, a)?.to_vec()));
    }
    Ok(v)
}

#[derive(Clone, Debug)]
struct Draw {
    level: u32,
    chal: usize,
    key: u64,
    /// Calls before the message
    history: Vec<Op>,
}

/// Every byte of the random values takes every value as some byte of the random source does, each
/// one another byte of the source.
fn run_depends(c: &Draw, o: &mut Obs) -> Res {
    let cr = usual();
    let send = |rng: Rng| -> Result<(Vec<(&'static str, Vec<u8>)>, Rng), String> {
        let mut cl = client(c.level, &cr);
        for (n, op) in c.history.iter().enumerate() {
            let _ = perform(&mut cl, *op, rng_of(*op, n), NOW);
        }
        perform(&mut cl, Negotiate, Rng::default(), NOW).0?;
        perform(&mut cl, Challenge(c.chal), Rng::default(), NOW).0?;
        let (r, after) = perform(&mut cl, Authenticate, rng, NOW);
        let b = r?.ok_or("no AUTHENTICATE message")?;
        Ok((random_values(c.level, &chal(c.chal), &cr, &b)?, after))
    };
    let (base, after) = send(rng_key(c.key))?;
    let n = after.delivered;
    if n > 4096 {
        return Err(format!("a message took {n} random bytes"));
    }
    // seen[p][output byte]: the values it takes while byte p of the source takes all of them
    let outs: usize = base.iter().map(|v| v.1.len()).sum();
    if outs == 0 {
        o.outcome("no random value");
        return Ok(());
    }
    o.outcome("random values");
    let mut full: Vec<Vec<bool>> = vec![];
    for p in 0..n {
        let mut seen = vec![[false; 256]; outs];
        for value in 0..=255u8 {
            let (v, _) = send(Rng { dev: Some((p, value)), ..rng_key(c.key) })?;
            let bytes: Vec<u8> = v.iter().flat_map(|v| v.1.iter().copied()).collect();
            if bytes.len() != outs {
                return Err("the number of random values depends on the random source".into());
            }
            o.steps(1);
            o.state(&(c.level, c.chal, &bytes));
            for (s, b) in seen.iter_mut().zip(&bytes) {
                s[*b as usize] = true;
            }
        }
        full.push(seen.iter().map(|s| s.iter().all(|x| *x)).collect());
    }
    // Bytes of the source for the bytes of the values; the client challenge is sent twice at NTLMv2
    let mut at = 0;
    let mut taken: Vec<(usize, &str)> = vec![];
    for (what, v) in &base {
        for i in 0..v.len() {
            let free = |p: &usize| *what == "client challenge of the NT response" || taken.iter().all(|t| t.0 != *p);
            match (0..n as usize).filter(|p| full[*p][at + i]).find(free) {
                Some(p) => {
                    if *what != "client challenge of the NT response" {
                        taken.push((p, what));
                    }
                }
                None => return Err(format!("byte {i} of the {what} does not come from a random byte of its own ({n} random bytes were read)")),
            }
        }
        at += v.len();
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Many {
    /// Calls of up to two clients
    levels: [u32; 2],
    ops: Vec<(usize, Op)>,
}

/// With every random byte of one message complemented, every random byte it sends differs, and so
/// no message sends values of an earlier one.
fn run_fresh(c: &Many, o: &mut Obs) -> Res {
    let cr = usual();
    let all = |turned: Option<usize>| -> Vec<Option<Vec<(&'static str, Vec<u8>)>>> {
        let mut cls = [client(c.levels[0], &cr), client(c.levels[1], &cr)];
        let mut at = [At::New; 2];
        c.ops
            .iter()
            .enumerate()
            .map(|(n, (w, op))| {
                let mut rng = rng_of(*op, n);
                rng.inv = turned == Some(n);
                let (r, _) = perform(&mut cls[*w], *op, rng, NOW);
                match op {
                    Negotiate => at[*w] = At::Negotiated,
                    Challenge(i) if at[*w] == At::Negotiated => at[*w] = At::Accepted(*i),
                    _ => {}
                }
                match (r, op, at[*w].challenge()) {
                    (Ok(Some(b)), Authenticate, Some(i)) => random_values(c.levels[*w], &chal(i), &cr, &b).ok(),
                    _ => None,
                }
            })
            .collect()
    };
    let base = all(None);
    o.steps(c.ops.len() as u64);
    o.state(&(c.levels, &base));
    for (n, v) in base.iter().enumerate() {
        let Some(v) = v else { continue };
        let turned = all(Some(n));
        o.steps(c.ops.len() as u64);
        let Some(t) = &turned[n] else { return Err(format!("call {n} of {:?} sends no message with other random bytes", c.ops)) };
        for ((what, a), (_, b)) in v.iter().zip(t) {
            o.outcome("compared");
            if let Some(i) = a.iter().zip(b).position(|(a, b)| a == b) {
                return Err(format!("byte {i} of the {what} of call {n} of {:?} does not depend on the random bytes read then", c.ops));
            }
        }
        for (m, w) in base.iter().enumerate().take(n) {
            for (what, a) in w.iter().flatten() {
                if v.iter().any(|(_, b)| a[..8] == b[..8]) {
                    return Err(format!("the {what} of call {m} of {:?} is sent again by call {n}", c.ops));
                }
            }
        }
        // No value is part of another one of the message
        if let (Some(cc), Some(k)) = (v.iter().find(|v| v.0 == "client challenge"), v.iter().find(|v| v.0 == "session key")) {
            if k.1.windows(8).any(|w| w == &cc.1[..]) || k.1[..8] == k.1[8..] {
                return Err(format!("the client challenge and the session key of call {n} share bytes"));
            }
        }
    }
    Ok(())
}

/// Many messages, of one client or of many; each random value is new.
#[derive(Clone, Debug)]
struct Long {
    levels: [u32; 2],
    clients: usize,
    /// Calls of each client, one client after the other or taking turns
    ops: Ops,
    turns: bool,
}

fn run_long(c: &Long, o: &mut Obs) -> Res {
    let cr = usual();
    let mut cls: Vec<_> = (0..c.clients).map(|w| client(c.levels[w % 2], &cr)).collect();
    let mut at = vec![At::New; c.clients];
    let mut seen = std::collections::HashMap::new();
    let calls = c.clients * c.ops.len();
    for n in 0..calls {
        let (w, s) = if c.turns { (n % c.clients, n / c.clients) } else { (n / c.ops.len(), n % c.ops.len()) };
        let op = c.ops[s];
        let (r, _) = perform(&mut cls[w], op, rng_key(n as u64), NOW);
        o.steps(1);
        match op {
            Negotiate => at[w] = At::Negotiated,
            Challenge(i) if at[w] == At::Negotiated => at[w] = At::Accepted(i),
            _ => {}
        }
        if let (Ok(Some(b)), Authenticate, Some(i)) = (r, op, at[w].challenge()) {
            for (what, v) in random_values(c.levels[w % 2], &chal(i), &cr, &b)? {
                if what == "client challenge of the NT response" {
                    continue;
                }
                o.outcome("compared");
                if let Some((m, other)) = seen.insert(v[..8].to_vec(), (n, what)) {
                    return Err(format!("the {what} of call {n} is the {other} of call {m}"));
                }
            }
        }
    }
    o.state(&(c.levels, c.clients, &c.ops, c.turns, seen.len()));
    Ok(())
}

#[derive(Clone, Debug)]
struct Faulty {
    level: u32,
    chal: usize,
    faults: Vec<(u32, Fault)>,
    fail_from: Option<u32>,
    again: bool,
}

fn run_faults(c: &Faulty, o: &mut Obs) -> Res {
    let cr = usual();
    let chal = &chal(c.chal);
    let send = |inv: bool| -> Result<(Option<Vec<(&'static str, Vec<u8>)>>, Rng), String> {
        let mut cl = client(c.level, &cr);
        perform(&mut cl, Negotiate, Rng::default(), NOW).0?;
        perform(&mut cl, Challenge(c.chal), Rng::default(), NOW).0?;
        if c.again {
            perform(&mut cl, Authenticate, rng_key(5), NOW).0?;
        }
        let rng = Rng { inv, faults: c.faults.clone(), fail_from: c.fail_from, ..rng_key(7) };
        let (r, after) = perform(&mut cl, Authenticate, rng, NOW);
        let v = match r {
            Ok(Some(b)) => {
                answers(c.level, &cr, chal, ticks(NOW.0, NOW.1), &b)?;
                Some(random_values(c.level, chal, &cr, &b)?)
            }
            _ => None,
        };
        if v.is_none() {
            // The client goes on when the random source does
            let (r, _) = perform(&mut cl, Authenticate, Rng { inv, ..rng_key(9) }, NOW);
            let b = r.map_err(|e| format!("after a failure of the random source: {e}"))?.ok_or("no message after a failure of the random source")?;
            answers(c.level, &cr, chal, ticks(NOW.0, NOW.1), &b)?;
            return Ok((Some(random_values(c.level, chal, &cr, &b)?), after)).map(|(v, a)| (v, Rng { key: u64::MAX, ..a }));
        }
        Ok((v, after))
    };
    let (v, after) = send(false)?;
    let sent = after.key != u64::MAX;
    let fatal = c.fail_from.is_some_and(|k| after.calls > k)
        || c.faults.iter().any(|(k, f)| after.calls > *k && matches!(f, Fault::Errno(e) if *e != libc::EINTR));
    o.steps(1);
    o.state(&(c.level, &v, after.calls));
    o.outcome(match (fatal, sent) {
        (true, false) => "failed",
        (false, true) => "sent",
        (true, true) => return Err("a message was sent although the random source failed".into()),
        (false, false) => return Err("no message was sent although the random source did not fail".into()),
    });
    let (t, _) = send(true)?;
    for ((what, a), (_, b)) in v.iter().flatten().zip(t.iter().flatten()) {
        if let Some(i) = a.iter().zip(b).position(|(a, b)| a == b) {
            return Err(format!("byte {i} of the {what} does not depend on the random bytes"));
        }
    }
    Ok(())
}

pub fn c20(deep: bool) -> Vec<Space> {
    const OPS: [(usize, Op); 8] = [
        (0, Negotiate),
        (0, Challenge(0)),
        (0, Authenticate),
        (0, Fail),
        (1, Negotiate),
        (1, Challenge(0)),
        (1, Authenticate),
        (1, FailLate),
    ];
    const ONE: [(usize, Op); 5] = [(0, Negotiate), (0, Challenge(0)), (0, Challenge(1)), (0, Authenticate), (0, FailLate)];
    const ANSWERS: [Option<Fault>; 10] = [
        None,
        Some(Fault::Short(1)),
        Some(Fault::Short(3)),
        Some(Fault::Short(7)),
        Some(Fault::Short(15)),
        Some(Fault::Errno(libc::EINTR)),
        Some(Fault::Errno(libc::EIO)),
        Some(Fault::Errno(libc::EAGAIN)),
        Some(Fault::Errno(libc::EFAULT)),
        Some(Fault::Errno(libc::ENOSYS)),
    ];
    let hist: Vec<Vec<Op>> = vec![
        vec![],
        vec![Negotiate, Challenge(0), Authenticate],
        vec![Negotiate, Challenge(2), Authenticate, Authenticate],
        vec![Negotiate, Challenge(0), Fail],
        vec![Negotiate, Challenge(0), FailLate],
        vec![Authenticate, Authenticate],
    ];
    let keys: &[u64] = if deep { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 1] };
    let depth = if deep { 7 } else { 6 };
    let depth1 = if deep { 8 } else { 7 };
    let calls = 4;
    let words: Vec<_> = long_words(deep).into_iter().filter(|(w, _)| w.contains(&Authenticate)).collect();
    let two = departed().two;
    vec![
        Space::of(
            "level x CHALLENGE with up to two departures from the usual one: three messages",
            6 * two as u64,
            |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let x = Challenge(DEPARTED + m.0 as usize);
                Many { levels: [level; 2], ops: [Negotiate, x, Authenticate, Authenticate, Negotiate, x, Authenticate].map(|o| (0, o)).to_vec() }
            },
            run_fresh,
        )
        .must_see(&["compared"]),
        {
            let (n, case) = departed_cases(&[0, 1, 2, 3, 4, 5], if deep { 3 } else { 2 }, deep);
            Space::of("level x every few departures from the usual handshake, and again with other random bytes", n, case, fresh).must_see(&["compared"])
        },
        Space::of(
            "level x CHALLENGE with up to two departures from the usual one x lasting failure",
            6 * 4 * 2 * two as u64,
            |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let fail_from = *m.of(&[None, Some(0), Some(1), Some(2)]);
                let again = m.flag();
                Faulty { level, chal: DEPARTED + m.0 as usize, faults: vec![], fail_from, again }
            },
            run_faults,
        )
        .must_see(&["failed", "sent"]),
        Space::of(
            "level x every short word of calls, repeated, by one client",
            6 * words.len() as u64,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let (w, n) = m.of(&words);
                Long { levels: [level; 2], clients: 1, ops: Ops(repeated(w, *n)), turns: false }
            },
            run_long,
        )
        .must_see(&["compared"]),
        Space::of(
            "levels x handshakes of many clients, one after the other or in turns",
            36 * 2 * if deep { 4 } else { 3 },
            |i| {
                let mut m = Mix(i);
                let levels = [m.pick(6) as u32, m.pick(6) as u32];
                let turns = m.flag();
                let clients = [2, 17, 300, 66_000][m.0 as usize];
                Long { levels, clients, ops: Ops(vec![Negotiate, Challenge(0), Authenticate, Authenticate]), turns }
            },
            run_long,
        )
        .must_see(&["compared"]),
        Space::of(
            "level x CHALLENGE x history x random stream: every byte of the stream x every value",
            6 * 4 * hist.len() as u64 * keys.len() as u64,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let chal = m.pick(4);
                let history = m.of(&hist).clone();
                Draw { level, chal, key: *m.of(keys), history }
            },
            run_depends,
        )
        .must_see(&["random values"]),
        Space::of(
            &format!("every sequence of {depth} calls of two clients"),
            8u64.pow(depth) * if deep { 3 } else { 1 },
            move |i| {
                let mut m = Mix(i);
                let ops: Vec<(usize, Op)> = (0..depth).map(|_| *m.of(&OPS)).collect();
                let levels = if deep { [[3, 4], [2, 5], [0, 1]][m.pick(3)] } else { [[3, 2], [5, 4]][(i % 2) as usize] };
                Many { levels, ops }
            },
            run_fresh,
        )
        .must_see(&["compared"]),
        Space::of(
            &format!("level x every sequence of {depth1} calls of one client"),
            6 * 5u64.pow(depth1),
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                Many { levels: [level, level], ops: (0..depth1).map(|_| *m.of(&ONE)).collect() }
            },
            run_fresh,
        )
        .must_see(&["compared"]),
        Space::of(
            &format!("level x CHALLENGE x the answers to the first {calls} reads of the random source x lasting failure"),
            6 * 4 * 2 * 6 * 10u64.pow(calls),
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let chal = m.pick(4);
                let again = m.flag();
                let fail_from = *m.of(&[None, Some(0), Some(1), Some(2), Some(3), Some(4)]);
                let faults = (0..calls).filter_map(|n| m.of(&ANSWERS).map(|f| (n, f))).collect();
                Faulty { level, chal, faults, fail_from, again }
            },
            run_faults,
        )
        .must_see(&["failed", "sent"]),
    ]
}

// ---------------------------------------------------------------- C26

/// What one of several clients does.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Part {
    pub level: u32,
    pub chal: usize,
    pub who: usize,
}
const WHO: [(&str, &str, &str); 12] = [
    ("User", "Domäin", "Pässword😀"),
    ("bob", "", "hunter2"),
    ("a much longer user name", "EXAMPLE", ""),
    // The first one with one part changed, parts exchanged, or cut elsewhere
    ("User", "Domäin", "other"),
    ("User", "Domäin", "pÄssword😀"),
    ("User", "other", "Pässword😀"),
    ("User", "domäin", "Pässword😀"),
    ("other", "Domäin", "Pässword😀"),
    ("USER", "Domäin", "Pässword😀"),
    ("UserD", "omäin", "Pässword😀"),
    ("Domäin", "User", "Pässword😀"),
    ("User", "", "Pässword😀"),
];

impl Part {
    /// Each on a computer of its own, which some know from the host name file alone.
    pub fn build(&self) -> Box<dyn Cl> {
        let name = format!("WKS{}", self.who);
        let file = format!("host{}.example\n", self.who);
        with_hostname(Ok(file.into_bytes()), || with_computername((self.who % 3 != 1).then_some(&name), || client(self.level, &self.creds())))
    }
    fn creds(&self) -> Creds {
        let (u, d, p) = WHO[self.who];
        creds(u, d, p)
    }
    fn rng(&self, step: usize) -> Rng {
        rng_key(1000 * (self.who as u64 + 1) + 100 * self.level as u64 + 10 * self.chal as u64 + step as u64)
    }
    fn clock(&self, step: usize) -> (i64, i64) {
        (1_700_000_000 + 1000 * self.who as i64 + 7 * step as i64, 100 * (self.level as i64 + 1))
    }
    fn op(&self, step: usize) -> Option<Op> {
        [Negotiate, Challenge(self.chal), Authenticate, Authenticate].get(step).copied()
    }
    pub fn step(&self, cl: &mut Box<dyn Cl>, step: usize) -> Result<Option<Vec<u8>>, String> {
        let op = self.op(step).unwrap();
        with_computername(Some("MOVED"), || perform(cl, op, self.rng(step), self.clock(step))).0.map_err(|e| format!("{op:?} of {self:?} panicked: {e}"))
    }
    /// The messages it sends alone, in a process of its own; then the number of preemption points
    /// in each call.
    fn alone(&self) -> &'static (Vec<Vec<u8>>, Vec<usize>) {
        type Solo = (Vec<Vec<u8>>, Vec<usize>);
        static CELLS: [OnceLock<Solo>; 6 * 5 * WHO.len()] = [const { OnceLock::new() }; 6 * 5 * WHO.len()];
        static OTHERS: OnceLock<std::sync::Mutex<std::collections::HashMap<(usize, u32, usize), &'static OnceLock<Solo>>>> = OnceLock::new();
        let cell = if self.chal < 5 {
            &CELLS[(self.who * 6 + self.level as usize) * 5 + self.chal]
        } else {
            let mut others = OTHERS.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
            *others.entry((self.who, self.level, self.chal)).or_insert_with(|| Box::leak(Box::default()))
        };
        cell.get_or_init(|| {
            let out = std::process::Command::new(std::env::current_exe().expect("own path"))
                .args(["solo", &self.level.to_string(), &self.chal.to_string(), &self.who.to_string()])
                .stderr(std::process::Stdio::null())
                .output()
                .expect("a process of its own");
            let text = String::from_utf8(out.stdout).unwrap();
            let mut lines = text.lines();
            let points = lines.next().unwrap_or("").split_whitespace().map(|n| n.parse().unwrap()).collect();
            let msgs = lines.map(|l| (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
            (msgs, points)
        })
    }
}

pub fn solo(level: &str, chal: &str, who: &str) {
    let p = Part { level: level.parse().unwrap(), chal: chal.parse().unwrap(), who: who.parse().unwrap() };
    let points = std::rc::Rc::new(std::cell::Cell::new(0usize));
    let mut counts = vec![];
    let mut msgs = vec![];
    let mut cl = p.build();
    for s in 0..4 {
        let n = points.clone();
        points.set(0);
        match with_preemption(std::rc::Rc::new(move || n.set(n.get() + 1)), || p.step(&mut cl, s)) {
            Ok(Some(b)) => msgs.push(b),
            Ok(None) => {}
            Err(e) => msgs.push(e.into_bytes()),
        }
        counts.push(points.get());
    }
    println!("{}", counts.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    for m in msgs {
        println!("{}", m.iter().map(|b| format!("{b:02x}")).collect::<String>());
    }
}

type Job = Box<dyn FnOnce() + Send>;
thread_local! {
    /// Threads the clients of this explorer are moved between
    static POOL: Vec<Sender<Job>> = (0..3).map(|_| {
        let (tx, rx): (Sender<Job>, Receiver<Job>) = channel();
        std::thread::spawn(move || while let Ok(j) = rx.recv() { j() });
        tx
    }).collect();
}
fn on_thread(t: usize, j: Job) {
    POOL.with(|p| p[t].send(j).expect("thread"));
}

#[derive(Clone, Debug)]
struct Merge {
    parts: Vec<Part>,
    /// Which client makes the next call, and on which thread
    steps: Vec<(usize, usize)>,
    /// Whether the clients are built in steps of their own, or all before
    build: bool,
}

/// The i-th way to merge sequences of these lengths.
fn unrank(lens: &[usize], mut i: u64) -> Vec<usize> {
    let mut left: Vec<usize> = lens.to_vec();
    let mut out = vec![];
    while left.iter().any(|n| *n > 0) {
        for w in 0..left.len() {
            if left[w] == 0 {
                continue;
            }
            left[w] -= 1;
            let n = merges(&left);
            if i < n {
                out.push(w);
                break;
            }
            i -= n;
            left[w] += 1;
        }
    }
    out
}
fn merges(lens: &[usize]) -> u64 {
    let mut n = 0u64;
    let mut r = 1u64;
    for l in lens {
        for k in 1..=*l as u64 {
            n += 1;
            r = r * n / k;
        }
    }
    r
}

/// A client with its last result.
type Moved = (Option<Box<dyn Cl>>, Result<Option<Vec<u8>>, String>);

/// The first step of each client builds it, unless it is there already.
fn run_merge(c: &Merge, o: &mut Obs) -> Res {
    let mut cls: Vec<Option<Box<dyn Cl>>> = c.parts.iter().map(|p| (!c.build).then(|| p.build())).collect();
    let mut done = vec![0; c.parts.len()];
    let mut built = vec![!c.build; c.parts.len()];
    let mut sent: Vec<Vec<Vec<u8>>> = vec![vec![]; c.parts.len()];
    for (w, t) in &c.steps {
        let (tx, rx) = channel::<Moved>();
        let cl = cls[*w].take();
        let (p, s) = (c.parts[*w], done[*w]);
        on_thread(
            *t,
            Box::new(move || {
                let _ = tx.send(match cl {
                    None => match guard(|| p.build()) {
                        Ok(cl) => (Some(cl), Ok(None)),
                        Err(e) => (None, Err(e)),
                    },
                    Some(mut cl) => {
                        let r = p.step(&mut cl, s);
                        (Some(cl), r)
                    }
                });
            }),
        );
        let building = cls[*w].is_none() && c.build && !built[*w];
        let (cl, r) = rx.recv().map_err(|_| "the thread of a client ended".to_string())?;
        cls[*w] = cl;
        built[*w] = true;
        done[*w] += !building as usize;
        if let Some(b) = r? {
            sent[*w].push(b);
        }
        o.steps(1);
        o.state(&(&c.parts, &built, &done, sent.iter().map(|s| fx(s)).collect::<Vec<_>>()));
    }
    compare(&c.parts, &sent)
}

/// Like `run_merge`, for many clients.
fn run_many(c: &Merge, o: &mut Obs) -> Res {
    let mut cls: Vec<Option<Box<dyn Cl>>> = c.parts.iter().map(|_| None).collect();
    let mut done = vec![0; c.parts.len()];
    let mut failed = Ok(());
    for (n, (w, _)) in c.steps.iter().enumerate() {
        let p = c.parts[*w];
        match cls[*w].as_mut() {
            None => cls[*w] = Some(guard(|| p.build())?),
            Some(cl) => {
                if p.op(done[*w]).is_none() {
                    continue;
                }
                let before = p.alone().0.iter();
                let r = p.step(cl, done[*w])?;
                if let Some(b) = r {
                    let k = [0, 0, 1, 2][done[*w]];
                    if before.clone().nth(k) != Some(&b) {
                        failed = Err(format!("call {n} of all: the client {w} {p:?} sends {b:x?}, alone it sends {:x?}", p.alone().0.get(k)));
                        break;
                    }
                }
                done[*w] += 1;
            }
        }
        o.steps(1);
    }
    o.state(&(c.parts.len(), &done, c.steps.first(), c.steps.get(c.steps.len() / 2)));
    failed
}

fn compare(parts: &[Part], sent: &[Vec<Vec<u8>>]) -> Res {
    for (p, s) in parts.iter().zip(sent) {
        let want = &p.alone().0;
        if s[..] != want[..s.len().min(want.len())] || s.len() > want.len() {
            return Err(format!("the client {p:?} sends {s:x?}, alone it sends {want:x?}"));
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Inside {
    parts: Vec<Part>,
    /// Calls of each
    calls: usize,
    order: Vec<usize>,
}

enum Report {
    Point,
    End(Result<Vec<Vec<u8>>, String>),
}

/// One thread for each client, preempted before every call and whenever a call asks the operating
/// system for random bytes or the time.
fn run_inside(c: &Inside, o: &mut Obs) -> Res {
    struct Th {
        go: Sender<()>,
        at: Receiver<Report>,
        end: Option<Result<Vec<Vec<u8>>, String>>,
    }
    let mut ths: Vec<Th> = vec![];
    for (w, p) in c.parts.iter().enumerate() {
        let (go, wait) = channel::<()>();
        let (report, at) = channel::<Report>();
        let (p, calls) = (*p, c.calls);
        on_thread(
            w,
            Box::new(move || {
                let pause = {
                    let report = report.clone();
                    std::rc::Rc::new(move || {
                        let _ = report.send(Report::Point);
                        let _ = wait.recv();
                    })
                };
                let r = (|| {
                    pause();
                    let mut cl = guard(|| p.build())?;
                    let mut sent = vec![];
                    for s in 0..calls {
                        if s > 0 {
                            pause();
                        }
                        if let Some(b) = with_preemption(pause.clone(), || p.step(&mut cl, s))? {
                            sent.push(b);
                        }
                    }
                    Ok(sent)
                })();
                let _ = report.send(Report::End(r));
            }),
        );
        ths.push(Th { go, at, end: None });
    }
    let await_report = |t: &mut Th| -> Res {
        match t.at.recv() {
            Ok(Report::Point) => {}
            Ok(Report::End(r)) => t.end = Some(r),
            Err(_) => return Err("the thread of a client ended".into()),
        }
        Ok(())
    };
    for t in ths.iter_mut() {
        await_report(t)?;
    }
    let mut progress = vec![0u8; c.parts.len()];
    // What is left when the calls have other points than alone runs in order
    let rest = (0..c.parts.len()).flat_map(|w| std::iter::repeat(w).take(64));
    for w in c.order.iter().copied().chain(rest) {
        if ths[w].end.is_some() {
            continue;
        }
        progress[w] += 1;
        o.steps(1);
        o.state(&(&c.parts, &progress));
        let _ = ths[w].go.send(());
        await_report(&mut ths[w])?;
    }
    let mut sent = vec![];
    for (t, p) in ths.iter().zip(&c.parts) {
        match &t.end {
            Some(Ok(s)) => sent.push(s.clone()),
            Some(Err(e)) => return Err(e.clone()),
            None => return Err(format!("the client {p:?} does not come to an end")),
        }
    }
    compare(&c.parts, &sent)
}

/// Two clients: the first one answers any CHALLENGE, the second one is as if it were alone.
fn run_disturbed(c: &Merge, o: &mut Obs) -> Res {
    let mut cls: Vec<Box<dyn Cl>> = c.parts.iter().map(|p| p.build()).collect();
    let mut done = [0; 2];
    let mut sent = vec![];
    for (w, _) in &c.steps {
        let r = c.parts[*w].step(&mut cls[*w], done[*w])?;
        done[*w] += 1;
        o.steps(1);
        if *w == 1 {
            sent.extend(r);
        }
    }
    o.state(&(&c.parts, fx(&sent)));
    compare(&c.parts[1..], &[sent])
}

pub fn c26(deep: bool) -> Vec<Space> {
    let part = |level: usize, chal: usize, who: usize| Part { level: level as u32, chal, who };
    let m2 = merges(&[4, 4]);
    let m25 = merges(&[5, 5]);
    let m3 = merges(&[3, 3, 3]);
    let patterns3: u64 = if deep { 512 } else { 16 };
    let mut v = vec![
        Space::of(
            "levels of two clients x every merge of their 4 calls each x CHALLENGE messages, all on one thread",
            36 * m2 * 16,
            move |i| {
                let mut m = Mix(i);
                let (a, b) = (m.pick(6), m.pick(6));
                let (x, y) = (m.pick(4), m.pick(4));
                Merge { parts: vec![part(a, x, 0), part(b, y, 1)], steps: unrank(&[4, 4], m.0).into_iter().map(|w| (w, 0)).collect(), build: false }
            },
            run_merge,
        ),
        Space::of(
            "levels of two clients x accounts alike x every merge of building them and their 4 calls each x CHALLENGE messages alike",
            36 * 11 * 4 * m25,
            move |i| {
                let mut m = Mix(i);
                let (a, b) = (m.pick(6), m.pick(6));
                let other = [1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0][m.pick(11)];
                let (x, y) = *m.of(&[(0, 0), (0, 4), (4, 0), (1, 2)]);
                let order = unrank(&[5, 5], m.0);
                Merge { parts: vec![part(a, x, 0), part(b, y, other)], steps: order.into_iter().map(|w| (w, 0)).collect(), build: true }
            },
            run_merge,
        ),
        Space::of(
            "levels of two clients x every merge of their 4 calls each x every assignment of the calls to two threads",
            if deep { 36 } else { 6 } * m2 * 256,
            move |i| {
                let mut m = Mix(i);
                let (a, b) = if deep { (m.pick(6), m.pick(6)) } else { [(0, 3), (1, 4), (2, 5), (3, 3), (4, 0), (5, 2)][m.pick(6)] };
                let t = m.pick(256);
                let order = unrank(&[4, 4], m.0);
                Merge { parts: vec![part(a, 0, 0), part(b, 2, 1)], steps: order.into_iter().enumerate().map(|(n, w)| (w, t >> n & 1)).collect(), build: false }
            },
            run_merge,
        ),
        Space::of(
            "three clients x every merge of their 3 calls each x assignments of the calls to threads",
            3 * m3 * patterns3,
            move |i| {
                let mut m = Mix(i);
                let l = *m.of(&[[0, 3, 5], [2, 4, 1], [3, 3, 3]]);
                let t = m.pick(patterns3 as usize);
                // Few of the patterns: runs of calls on the same thread of several lengths
                let order = unrank(&[3, 3, 3], m.0);
                let thread = move |n: usize, w: usize| {
                    if patterns3 == 512 {
                        t >> n & 1
                    } else {
                        match t {
                            0 => w,
                            1 => n % 2,
                            2 => n % 3,
                            3 => (n + w) % 3,
                            k => (n * (k % 3 + 1) + k / 3) % 3,
                        }
                    }
                };
                Merge {
                    parts: vec![part(l[0], 0, 0), part(l[1], 1, 1), part(l[2], 2, 2)],
                    steps: order.into_iter().enumerate().map(|(n, w)| (w, thread(n, w))).collect(),
                    build: false,
                }
            },
            run_merge,
        ),
    ];
    let two = departed().two;
    v.push(Space::of(
        "levels of two clients x CHALLENGE with up to two departures from the usual one for the first x merges of their calls",
        36 * 4 * two as u64,
        move |i| {
            let mut m = Mix(i);
            let (a, b) = (m.pick(6), m.pick(6));
            let order = [[0, 0, 0, 0, 1, 1, 1, 1], [0, 1, 0, 1, 0, 1, 0, 1], [1, 0, 0, 1, 0, 1, 0, 1], [1, 1, 0, 0, 0, 0, 1, 1]][m.pick(4)];
            Merge { parts: vec![part(a, DEPARTED + m.0 as usize, 0), part(b, 0, 1)], steps: order.map(|w| (w, 0)).to_vec(), build: false }
        },
        run_disturbed,
    ));
    v.push(Space::of(
        "levels of two clients x CHALLENGE messages that differ in one respect x merges of their calls",
        6 * 2 * departed().pairs.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let level = m.pick(6);
            let order = [[0, 0, 0, 0, 1, 1, 1, 1], [0, 1, 0, 1, 0, 1, 0, 1]][m.pick(2)];
            // The second one, with at most one departure, is compared
            let (y, x) = *m.of(&departed().pairs);
            Merge { parts: vec![part(level, DEPARTED + x, 0), part(level, DEPARTED + y, 1)], steps: order.map(|w| (w, 0)).to_vec(), build: false }
        },
        run_disturbed,
    ));
    let many = if deep { 66_000 } else { 1_000 };
    v.push(Space::of(
        &format!("orders of building and calling {many} clients"),
        6 * 6,
        move |i| {
            let mut m = Mix(i);
            let order = m.pick(6);
            let l = m.pick(6);
            let parts: Vec<_> = (0..many).map(|w| part((l + w) % 6, w / 6 % 4, w / 24 % WHO.len())).collect();
            let steps = (0..5 * many).map(|n| {
                let w = match order {
                    0 => n % many,
                    1 => n / 5,
                    2 => many - 1 - n / 5,
                    3 => {
                        let w = n % many;
                        if n / many % 2 == 0 { w } else { many - 1 - w }
                    }
                    4 => n / 10 * 2 + n % 2,
                    // The first half is built before and ends after the second
                    _ => if n < many { n % (many / 2) } else if n < many * 7 / 2 { many / 2 + (n - many) / 5 } else { n % (many / 2) },
                };
                (w.min(many - 1), 0)
            });
            Merge { parts, steps: steps.collect(), build: true }
        },
        run_many,
    ));
    // Inside of the calls
    let mut pairs: Vec<(Vec<Part>, usize)> = vec![];
    for a in 0..6 {
        for b in 0..6 {
            for (x, y) in [(0, 0), (1, 2), (3, 0), (2, 3)] {
                pairs.push((vec![part(a, x, 0), part(b, y, 1)], if deep { 4 } else { 3 }));
            }
        }
    }
    if deep {
        pairs.push((vec![part(3, 0, 0), part(2, 1, 1), part(4, 2, 2)], 3));
        pairs.push((vec![part(5, 3, 0), part(5, 3, 1), part(1, 0, 2)], 3));
    }
    let lens: Vec<Vec<usize>> = pairs.iter().map(|(ps, calls)| ps.iter().map(|p| segments(p, *calls)).collect()).collect();
    let segs = Segs::new(lens.iter().map(|l| merges(l)));
    v.push(Space::of(
        "clients on threads of their own: every interleaving of the parts of their calls between requests to the operating system",
        segs.len(),
        move |i| {
            let (k, i) = segs.find(i);
            Inside { parts: pairs[k].0.clone(), calls: pairs[k].1, order: unrank(&lens[k], i) }
        },
        run_inside,
    ));
    v
}

/// The parts of the first calls: one for each and one for each point inside.
fn segments(p: &Part, calls: usize) -> usize {
    let points = &p.alone().1;
    calls + points.iter().take(calls).sum::<usize>()
}
