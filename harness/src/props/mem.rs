//! C28: memory is bounded by the messages at hand.

use super::decode::{big_msgs, decodings};
use super::seq::{perform_plain, short_words, Op};
use crate::alloc::*;
use crate::engine::*;
use crate::gen::*;
use crate::env::*;
use crate::props::hs::{departed_cases, usual, Case};
use crate::real::*;
use crate::spec::bit::*;
use crate::spec::*;

/// Bytes that may be asked for per byte of a message: a pair of four bytes becomes a value of some
/// fifty, in a list that doubles when it is full, and six fields may designate the same bytes.
const PER_BYTE: u64 = 160;
const FIXED: u64 = 8 << 10;

fn within(what: &str, u: Usage, len: usize) -> Res {
    let most = PER_BYTE * len as u64 + FIXED;
    if u.total > most || u.peak as u64 > most {
        return Err(format!("{what} of {len} bytes asked for {} bytes of memory, {} of them at one time", u.total, u.peak));
    }
    Ok(())
}

/// Decoding costs in proportion to what was received, and leaves nothing behind.
fn cost(decoder: usize, b: &[u8], o: &mut Obs) -> Res {
    let (name, f) = DECODERS[decoder];
    let (r, u) = metered(|| f(b));
    o.steps(1);
    o.state(&(decoder, b));
    o.outcome(if r.is_some() { "decoded" } else { "refused" });
    within(&format!("decoding ({name})"), u, b.len())?;
    if u.live != 0 {
        // Something may be set up once
        for _ in 0..2 {
            f(b);
        }
        let (_, u) = metered(|| f(b));
        if u.live != 0 {
            return Err(format!("{name}: {} bytes of memory are left over each time", u.live));
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Life {
    level: u32,
    word: Vec<Op>,
    reps: usize,
    /// The CHALLENGE differs from one repetition to the next
    fresh: bool,
    size: usize,
    /// What the CHALLENGES select, in turn
    flags: Vec<u32>,
}

/// Flags of the CHALLENGES of one client, each repetition has the next of them.
fn flag_turns() -> Vec<Vec<u32>> {
    let b = base_flags();
    let kinds = [b, b & !bits(&[KEY_EXCH]), b & !bits(&[ESS]) | bits(&[LM_KEY, VERSION]), b & !bits(&[SIGN, SEAL, ESS]) | bits(&[NON_NT]), b & !bits(&[TARGET_INFO, REQUEST_TARGET]), 0, u32::MAX];
    let mut v: Vec<Vec<u32>> = kinds.iter().map(|k| vec![*k]).collect();
    v.extend([vec![kinds[0], kinds[1]], vec![kinds[1], kinds[2]], vec![kinds[3], kinds[0], kinds[1], kinds[2]]]);
    v
}

fn chal_of(c: &Life, n: usize) -> Chal {
    let tag = if c.fresh { n } else { 0 };
    let text = format!("{tag:06}{}", "x".repeat(c.size));
    Chal {
        flags: c.flags[n % c.flags.len()],
        name: Some(text.clone()),
        sc: (tag as u64 + 1).to_le_bytes(),
        infos: vec![name(2, &text), name(1, &text), Av::Eol],
        ver: has(c.flags[n % c.flags.len()], VERSION).then(ver),
    }
}

/// One client goes through the same calls again and again.
fn run_life(c: &Life, o: &mut Obs) -> Res {
    let cr = usual();
    let once = |cl: &mut Box<dyn Cl>, n: usize| {
        for (k, op) in c.word.iter().enumerate() {
            let _ = perform_plain(cl, *op, &|_| chal_of(c, n), k);
        }
    };
    let len = 64 + 3 * 2 * (c.size + 6);
    let (mut early, mut late) = (0u64, 0u64);
    let mut held = vec![];
    let (_, whole) = metered(|| {
        let mut cl = client(c.level, &cr);
        let mut live = 0;
        for n in 0..c.reps {
            let (_, u) = metered(|| once(&mut cl, n));
            o.steps(c.word.len() as u64);
            live += u.live;
            held.push(live);
            if n < 16 {
                early = early.max(u.total);
            } else {
                late = late.max(u.total);
            }
        }
    });
    o.state(&(c.level, &c.word, c.size, &held[..held.len().min(4)]));
    let (a, b) = (*held[..16].iter().max().unwrap(), *held[16..].iter().max().unwrap());
    if b > a + 256 {
        return Err(format!("after 16 repetitions of the calls the client holds {a} bytes more than before, after {} repetitions {b}", c.reps));
    }
    if late > early + early / 4 + 1024 {
        return Err(format!("the first 16 repetitions of the calls ask for up to {early} bytes of memory each, later ones for {late}"));
    }
    let most = PER_BYTE * (len * c.word.len()) as u64 + FIXED;
    if early > most {
        return Err(format!("the calls ask for {early} bytes of memory, with messages of {len} bytes"));
    }
    if whole.live > FIXED as i64 {
        return Err(format!("{} bytes of memory are left over when the client is gone", whole.live));
    }
    o.outcome("steady");
    Ok(())
}

#[derive(Clone, Debug)]
struct Crowd {
    level: u32,
    word: Vec<Op>,
    clients: usize,
    /// All clients have the same account
    alike: bool,
    flags: Vec<u32>,
}

/// Clients come and go.
fn run_crowd(c: &Crowd, o: &mut Obs) -> Res {
    let mut held = vec![];
    let mut live = 0;
    for n in 0..c.clients {
        let (_, u) = metered(|| {
            let tag = if c.alike { 0 } else { n };
            let cr = Creds { user: format!("user{tag:06}"), domain: format!("dom{tag:06}"), password: format!("password{tag:06}") };
            let mut cl = client(c.level, &cr);
            for (k, op) in c.word.iter().enumerate() {
                let life = Life { level: c.level, word: vec![], reps: 0, fresh: !c.alike, size: 10, flags: c.flags.clone() };
                let _ = perform_plain(&mut cl, *op, &|_| chal_of(&life, n), k);
            }
        });
        o.steps(c.word.len() as u64 + 1);
        live += u.live;
        held.push(live);
    }
    o.state(&(c.level, &c.word, c.alike));
    let (a, b) = (held[8], *held.last().unwrap());
    if b > a + 256 {
        return Err(format!("{b} bytes of memory are held when {} clients are gone, {a} when 8 are", c.clients));
    }
    o.outcome("nothing left");
    Ok(())
}

/// One client makes the handshakes of a case again and again.
fn run_departed(h: &Case, o: &mut Obs) -> Res {
    const REPS: usize = 64;
    let chals = h.rounds.iter().map(|(s, times)| Ok((s.real()?, *times))).collect::<Result<Vec<_>, String>>()?;
    let len: usize = h.rounds.iter().map(|(s, times)| (1 + times) * (600 + 2 * encode(&Msg::Chal(s.model().clone())).len() + 4 * (h.cr.user.len() + h.cr.domain.len()))).sum();
    let body = || {
        let (mut early, mut late) = (0u64, 0u64);
        let mut held = [0i64; REPS];
        let (r, whole) = metered(|| {
            let mut cl = client(h.level, &h.cr);
            let mut live = 0;
            for (n, at) in held.iter_mut().enumerate() {
                let (r, u) = metered(|| {
                    let rng = Rng { key: h.key, dev: h.dev, first: h.first.clone(), ..Default::default() };
                    with_rng(rng, || {
                        with_clock(h.clock.0, h.clock.1, || {
                            for (c, times) in &chals {
                                guard(|| {
                                    cl.negotiate();
                                    cl.challenge(c.clone());
                                    for _ in 0..*times {
                                        cl.authenticate();
                                    }
                                })?;
                            }
                            Ok::<(), String>(())
                        })
                    })
                    .0
                });
                r?;
                live += u.live;
                *at = live;
                if n < REPS / 4 {
                    early = early.max(u.total);
                } else {
                    late = late.max(u.total);
                }
            }
            Ok::<(), String>(())
        });
        r.map(|_| (early, late, held, whole))
    };
    let (early, late, held, whole) = match &h.ws {
        None => body(),
        Some(name) => with_hostname(Err(libc::ENOENT), || with_computername(name.as_deref(), body)),
    }?;
    o.steps(3 * REPS as u64);
    o.state(&(h.level, early, late, held[REPS - 1]));
    let (a, b) = (*held[..REPS / 4].iter().max().unwrap(), *held[REPS / 4..].iter().max().unwrap());
    if b > a + 24 {
        return Err(format!("after {} handshakes the client holds {a} bytes more than before, after {REPS} of them {b}", REPS / 4));
    }
    if late > early + early / 4 + 1024 {
        return Err(format!("the first {} handshakes ask for up to {early} bytes of memory each, later ones for {late}", REPS / 4));
    }
    if early > PER_BYTE * len as u64 + FIXED {
        return Err(format!("handshakes ask for {early} bytes of memory, with messages of {len} bytes"));
    }
    if whole.live > FIXED as i64 {
        return Err(format!("{} bytes of memory are left over when the client is gone", whole.live));
    }
    Ok(())
}

pub fn c28(deep: bool) -> Vec<Space> {
    let mut out = decodings(cost, deep);
    {
        let msgs: Vec<(Kind, Vec<u8>)> = base_msgs().into_iter().map(|(_, m)| (m.kind(), encode(&m))).chain(big_msgs()).collect();
        let n = msgs.len() as u64;
        out.push(Space::new(
            "encoding of messages of every size",
            n,
            {
                let m = msgs.clone();
                move |i| format!("{:?}, {} bytes", m[i as usize].0, m[i as usize].1.len())
            },
            move |i, o| {
                let (k, b) = &msgs[i as usize];
                let m = dec(*k, b).ok_or("a well-formed message was refused")?;
                let run = || match &m {
                    Msg::Neg(n) => {
                        let r = neg_r(n);
                        metered(|| http_ntlm::verif::negotiate::encode(&r).0.len()).1
                    }
                    Msg::Chal(n) => {
                        let r = dec_chal_real(&encode(&Msg::Chal(n.clone()))).unwrap();
                        metered(|| http_ntlm::verif::challenge::encode(&r).0.len()).1
                    }
                    Msg::Auth(n) => {
                        let r = auth_r(n);
                        metered(|| http_ntlm::verif::authenticate::encode(&r).0.len()).1
                    }
                };
                run();
                let u = run();
                o.steps(1);
                o.state(&(i, u.total));
                within("encoding a message", u, b.len())?;
                if u.live != 0 {
                    return Err(format!("{} bytes of memory are left over each time", u.live));
                }
                Ok(())
            },
        ));
    }
    // All words with the usual flags, shorter ones with all flags
    let long = if deep { 5 } else { 4 };
    let words: Vec<(Vec<Op>, Vec<u32>)> = flag_turns()
        .into_iter()
        .enumerate()
        .flat_map(|(k, turn)| short_words(if k == 0 { long } else { long - 1 }).into_iter().map(move |w| (w, turn.clone())))
        .collect();
    let sizes: &'static [usize] = if deep { &[0, 10, 300, 5000] } else { &[0, 300] };
    {
        let words = words.clone();
        let reps = if deep { 600 } else { 80 };
        out.push(
            Space::of(
                "level x every short word of calls, repeated by one client x equal or different CHALLENGES x size x flags in turn",
                6 * words.len() as u64 * 2 * sizes.len() as u64,
                move |i| {
                    let mut m = Mix(i);
                    let level = m.pick(6) as u32;
                    let (word, flags) = m.of(&words).clone();
                    Life { level, word, reps, fresh: m.flag(), size: *m.of(sizes), flags }
                },
                run_life,
            )
            .must_see(&["steady"]),
        );
    }
    {
        let (n, case) = departed_cases(&[0, 1, 2, 3, 4, 5], 2, deep);
        out.push(Space::of("level x every 2 or fewer departures from the usual handshake, repeated by one client", n, case, run_departed));
    }
    {
        let clients = if deep { 600 } else { 80 };
        out.push(
            Space::of(
                "level x every short word of calls x clients that come and go x flags in turn",
                6 * words.len() as u64 * 2,
                move |i| {
                    let mut m = Mix(i);
                    let level = m.pick(6) as u32;
                    let (word, flags) = m.of(&words).clone();
                    Crowd { level, word, clients, alike: m.flag(), flags }
                },
                run_crowd,
            )
            .must_see(&["nothing left"]),
        );
    }
    out
}
