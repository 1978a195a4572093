//! Handshakes: the messages of real clients against the reference server.

use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use crate::props::WORKSTATION;
use crate::real::*;
use crate::server;
use crate::spec::bit::*;
use crate::spec::*;
use http_ntlm::messages::Challenge;
use http_ntlm::verif;
use std::sync::Arc;

/// Where the CHALLENGE comes from.
#[derive(Clone, Debug)]
pub enum Src {
    /// Through the builder methods
    Built(Chal),
    /// Encoded by the reference, decoded by the code under test
    Wire(Chal),
}
impl Src {
    pub fn model(&self) -> &Chal {
        match self {
            Src::Built(c) | Src::Wire(c) => c,
        }
    }
    pub fn real(&self) -> Result<Challenge, String> {
        let c = match self {
            Src::Built(c) => guard(|| chal_r(c))?,
            Src::Wire(c) => guard(|| dec_chal_real(&encode(&Msg::Chal(c.clone()))))?.ok_or("a well-formed CHALLENGE was refused")?,
        };
        Ok(c)
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub level: u32,
    pub cr: Creds,
    pub key: u64,
    pub dev: Option<(u64, u8)>,
    /// How the random stream begins
    pub first: Vec<u8>,
    pub clock: (i64, i64),
    /// The name of the computer: as it is, or this one, or none
    pub ws: Option<Option<String>>,
    /// If there are any: the clock at each call in turn
    pub clocks: Vec<(i64, i64)>,
    /// Handshakes, each with its CHALLENGE and how often AUTHENTICATE is sent
    pub rounds: Vec<(Src, usize)>,
}

/// One AUTHENTICATE message and all that belongs to it.
pub struct Done<'a> {
    pub level: u32,
    pub cr: &'a Creds,
    pub now: u64,
    pub ws: Option<&'a str>,
    /// NEGOTIATE as sent
    pub neg: &'a [u8],
    pub chal: &'a Chal,
    /// CHALLENGE as encoded
    pub encoded: &'a [u8],
    pub bytes: &'a [u8],
    /// What the reference decoder reads
    pub auth: Result<Auth, String>,
    /// The session key the client holds
    pub held: Option<[u8; 16]>,
}
impl Done<'_> {
    pub fn auth(&self) -> Result<&Auth, String> {
        self.auth.as_ref().map_err(|e| format!("the AUTHENTICATE message is malformed: {e}: {:x?}", self.bytes))
    }
    pub fn keys(&self) -> server::Keys {
        server::keys(&self.cr.password, &self.cr.user, &self.cr.domain)
    }
}

pub fn ticks(s: i64, ns: i64) -> u64 {
    (s as u64 + 11_644_473_600) * 10_000_000 + ns as u64 / 100
}

pub fn run(c: &Case, o: &mut Obs, judge: &dyn Fn(&Done, &mut Obs) -> Res) -> Res {
    match &c.ws {
        None => run_here(c, o, judge),
        Some(name) => with_hostname(Err(libc::ENOENT), || with_computername(name.as_deref(), || run_here(c, o, judge))),
    }
}

fn run_here(c: &Case, o: &mut Obs, judge: &dyn Fn(&Done, &mut Obs) -> Res) -> Res {
    let rng = Rng { key: c.key, dev: c.dev, first: c.first.clone(), ..Default::default() };
    let mut calls = 0;
    let mut tick = || {
        calls += 1;
        let now = if c.clocks.is_empty() { c.clock } else { c.clocks[(calls - 1) % c.clocks.len()] };
        set_clock(now.0, now.1);
        now
    };
    let (r, _) = with_rng(rng, || {
        with_clock(c.clock.0, c.clock.1, || {
            let mut cl = guard(|| client(c.level, &c.cr)).map_err(|e| format!("building the client panicked: {e}"))?;
            for (src, times) in &c.rounds {
                let chal = src.real()?;
                let encoded = guard(|| verif::challenge::encode(&chal).0)?;
                tick();
                let neg = guard(|| cl.negotiate()).map_err(|e| format!("send_negociate panicked: {e}"))?;
                tick();
                guard(|| cl.challenge(chal)).map_err(|e| format!("recv_challenge panicked: {e}"))?;
                o.steps(2);
                for _ in 0..*times {
                    let now = tick();
                    let bytes = guard(|| cl.authenticate()).map_err(|e| format!("send_authenticate panicked: {e}"))?;
                    o.steps(1);
                    let d = Done {
                        level: c.level,
                        cr: &c.cr,
                        now: ticks(now.0, now.1),
                        ws: c.ws.as_ref().map_or(Some(WORKSTATION), |w| w.as_deref()),
                        neg: &neg,
                        chal: src.model(),
                        encoded: &encoded,
                        auth: parse(Kind::Auth, &bytes).map(|m| m.auth().clone()),
                        bytes: &bytes,
                        held: cl.session_key(),
                    };
                    o.state(&(c.level, &bytes));
                    judge(&d, o)?;
                }
            }
            Ok(())
        })
    });
    r
}

// ---------------------------------------------------------------- judges

fn judge_v1(d: &Done, o: &mut Obs) -> Res {
    o.outcome(if has(d.chal.flags, ESS) {
        "extended session security"
    } else if d.level == 0 {
        "LM response from the LM key"
    } else {
        "LM response is the NT response"
    });
    server::verify_v1(d.level, d.chal.flags, &d.keys(), &d.chal.sc, d.auth()?)
}

fn judge_v2(d: &Done, o: &mut Obs) -> Res {
    o.outcome(if d.chal.infos.iter().any(|a| matches!(a, Av::Time(_))) { "time of the server" } else { "current time" });
    if d.chal.infos.iter().filter(|a| matches!(a, Av::Time(_))).count() > 1 {
        o.outcome("two times");
    }
    server::verify_v2(&d.keys(), d.chal, d.now, d.bytes)
}

fn judge_key(d: &Done, o: &mut Obs) -> Res {
    let a = d.auth()?;
    let flags = d.chal.flags;
    let exchanged = server::exchanges_key(flags);
    let is_v1 = d.level <= 2;
    o.outcome(match (is_v1, has(flags, ESS), has(flags, LM_KEY), has(flags, NON_NT)) {
        (false, ..) => "NTLMv2 key",
        (true, true, ..) => "extended session security key",
        (true, false, true, _) => "LM key",
        (true, false, false, true) => "non-NT key",
        (true, false, false, false) => "session base key",
    });
    o.outcome(if exchanged { "key exchanged" } else { "key not exchanged" });
    if a.key.is_some() != exchanged {
        return Err(format!("an encrypted session key is {}, but key exchange is {}", if a.key.is_some() { "sent" } else { "not sent" }, if exchanged { "negotiated" } else { "not negotiated" }));
    }
    let want = server::session_key(flags, &d.keys(), &d.chal.sc, a)?;
    match d.held {
        Some(h) if h == want => Ok(()),
        // Without the hook, the integrity code tells
        None if !SESSION && is_v1 => Ok(()),
        None if !SESSION => judge_mic(d, o),
        h => Err(format!("the server derives the session key {want:x?}, the client holds {h:x?}")),
    }
}

fn judge_mic(d: &Done, o: &mut Obs) -> Res {
    let a = d.auth()?;
    o.outcome(if a.ver.is_some() { "with a version" } else { "without a version" });
    let held = match d.held {
        None if !SESSION => server::session_key(d.chal.flags, &d.keys(), &d.chal.sc, a)?,
        h => h.ok_or("the client holds no session key")?,
    };
    let want = server::mic(&held, d.neg, d.encoded, d.bytes);
    if a.mic != want {
        return Err(format!("the integrity code is {:x?}, expected {want:x?}", a.mic));
    }
    Ok(())
}

fn judge_flags(d: &Done, o: &mut Obs) -> Res {
    let a = d.auth()?;
    let mut want = d.chal.flags & !bits(&[OEM, TYPE_SERVER, VERSION, KEY_EXCH]);
    want |= bits(&[UNICODE, TARGET_INFO, REQUEST_TARGET]);
    if a.ver.is_some() {
        want |= bits(&[VERSION]);
    }
    if a.key.is_some() {
        want |= bits(&[KEY_EXCH]);
    }
    o.outcome(if a.key.is_some() { "with a key" } else { "without a key" });
    if a.flags != want {
        return Err(format!("the CHALLENGE selected {:#x}, AUTHENTICATE declares {:#x}, expected {want:#x}", d.chal.flags, a.flags));
    }
    // The message decodes to what was sent
    let got = guard(|| dec(Kind::Auth, d.bytes))?.ok_or("the AUTHENTICATE message that was sent does not decode")?;
    let sent = Msg::Auth(a.clone());
    if !same(&got, &sent) {
        return Err(format!("the AUTHENTICATE message decodes to {got:x?}, sent was {sent:x?}"));
    }
    sent_names(d.cr, a)?;
    if norm(&a.ws) != d.ws.filter(|w| !w.is_empty()) {
        return Err(format!("the workstation is {:?}, expected {:?}", a.ws, d.ws));
    }
    if a.lm.is_none() || a.nt.is_none() {
        return Err("a response is missing".into());
    }
    Ok(())
}

fn sent_names(cr: &Creds, a: &Auth) -> Res {
    if a.user.as_deref().unwrap_or("") != cr.user || a.domain.as_deref().unwrap_or("") != cr.domain {
        return Err(format!("sent user {:?} of domain {:?}, expected {:?} of {:?}", a.user, a.domain, cr.user, cr.domain));
    }
    Ok(())
}

// ---------------------------------------------------------------- shared spaces

pub fn usual() -> Creds {
    creds("User", "Domäin", "Pässword😀")
}
pub const NOW: (i64, i64) = (1_700_000_123, 456_789_100);

fn base_chal(flags: u32) -> Chal {
    let mut c = Chal { flags, name: some("Server"), sc: pattern(0x81), infos: short_infos(), ver: None };
    agree(&mut c);
    c
}
/// The version is there exactly when the version flag is.
fn agree(c: &mut Chal) {
    c.ver = has(c.flags, VERSION).then(|| c.ver.clone().unwrap_or_else(ver));
}

fn one(level: u32, src: Src) -> Case {
    Case { level, cr: usual(), key: 1, dev: None, first: vec![], clock: NOW, ws: None, clocks: vec![], rounds: vec![(src, 1)] }
}

const SUBSET: [u32; 22] = [
    SIGN, SEAL, KEY_EXCH, ESS, LM_KEY, NON_NT, VERSION, UNICODE, OEM, REQUEST_TARGET, TARGET_INFO, TYPE_SERVER, NTLM, ALWAYS_SIGN, N128, DATAGRAM, ANONYMOUS, IDENTIFY,
    TYPE_DOMAIN, N56, DOMAIN_SUPPLIED, WS_SUPPLIED,
];

/// Words that differ from `bases` in at most `k` bits.
pub fn near(bases: &[u32], k: u32) -> Vec<u32> {
    let mut v = vec![];
    for b in bases {
        v.push(*b);
        for i in 0..32 {
            v.push(b ^ 1 << i);
            for j in 0..i {
                if k >= 2 {
                    v.push(b ^ 1 << i ^ 1 << j);
                }
                for l in 0..j {
                    if k >= 3 {
                        v.push(b ^ 1 << i ^ 1 << j ^ 1 << l);
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn flag_bases() -> Vec<u32> {
    let b = base_flags();
    vec![
        b,
        b & !bits(&[ESS]),
        b & !bits(&[ESS]) | bits(&[LM_KEY]),
        b & !bits(&[ESS]) | bits(&[NON_NT, VERSION]),
        b & !bits(&[SIGN, SEAL]) | bits(&[OEM]),
        b & !bits(&[KEY_EXCH, UNICODE]) | bits(&[OEM, TYPE_SERVER]),
        0,
        u32::MAX,
        // What NEGOTIATE offers at levels 0, 1 and 2
        bits(&[UNICODE, OEM, SIGN, SEAL, ALWAYS_SIGN, N128, REQUEST_TARGET, NTLM, LM_KEY, KEY_EXCH]),
        bits(&[UNICODE, OEM, SIGN, SEAL, ALWAYS_SIGN, N128, REQUEST_TARGET, NTLM, ESS]),
        bits(&[UNICODE, OEM, SIGN, SEAL, ALWAYS_SIGN, N128, REQUEST_TARGET, ESS, KEY_EXCH, TARGET_INFO]),
        // What Windows, Samba, curl, Firefox and the examples of MS-NLMP send
        0xe289_8215,
        0xe288_8215,
        0xe208_8297,
        0xe208_8233,
        0x6289_8235,
        0x6089_0235,
        0xa289_8205,
        0xa288_8207,
        0x0002_8233,
        0x8202_8233,
        0xe28a_8233,
        0x6282_8215,
    ]
}

/// Flags under which the key, the responses and the layout differ.
fn flag_kinds() -> Vec<u32> {
    let b = base_flags();
    vec![b, b & !bits(&[ESS]) | bits(&[LM_KEY, VERSION]), b & !bits(&[ESS, KEY_EXCH]), b & !bits(&[ESS]) | bits(&[NON_NT, VERSION, OEM])]
}

type Departure = (String, Box<dyn Fn(&mut Case) + Send + Sync>);

/// Single ways in which a handshake departs from the usual one, each of one dimension.
pub fn departures(deep: bool) -> Vec<Departure> {
    let mut v: Vec<Departure> = vec![];
    fn chal(h: &mut Case) -> &mut Chal {
        match &mut h.rounds.last_mut().unwrap().0 {
            Src::Built(c) | Src::Wire(c) => c,
        }
    }
    macro_rules! add {
        ($name:expr, $f:expr) => {
            v.push(($name.to_string(), Box::new($f)))
        };
    }
    for b in 0..32 {
        add!(format!("flag {b}"), move |h| chal(h).flags ^= 1 << b);
    }
    for (k, f) in flag_kinds().into_iter().chain([0, u32::MAX, 0xe289_8215]).enumerate().skip(1) {
        add!(format!("flags of kind {k}"), move |h| chal(h).flags = f);
    }
    // Keys are short of a block, or more than one; names are limited elsewhere
    for p in ["", "p", "1234567", "12345678", "12345678901234", "123456789012345", "UPPER", "ß", "é", "日本"] {
        add!(format!("password {p:?}"), move |h| h.cr.password = p.into());
    }
    add!("a long password", |h| h.cr.password = "long ".repeat(60));
    for n in ["", "u", "USER", "Dom", "Server", "ünï", "a@b", "a\\b", "𝔘"] {
        add!(format!("user {n:?}"), move |h| h.cr.user = n.into());
        add!(format!("domain {n:?}"), move |h| h.cr.domain = n.into());
        add!(format!("target name {n:?}"), move |h| chal(h).name = Some(n.to_string()).filter(|n| !n.is_empty()));
    }
    for n in [16, 64, 256] {
        add!(format!("a user of {n}"), move |h| h.cr.user = "u".repeat(n));
        add!(format!("a domain of {n}"), move |h| h.cr.domain = "d".repeat(n));
    }
    for n in [None, Some(""), Some("w"), Some("Server"), Some("wörk"), Some("host.domain.example")] {
        add!(format!("computer {n:?}"), move |h| h.ws = Some(n.map(String::from)));
    }
    for at in 0..8 {
        for b in [0, 0xff] {
            add!(format!("byte {at} of the server challenge {b}"), move |h| chal(h).sc[at] = b);
            if deep || at % 7 == 0 {
                add!(format!("byte {at} of the random stream {b}"), move |h| h.dev = Some((at as u64, b)));
            }
            if at == 0 || deep {
                add!(format!("byte {} of the random stream {b}", at + 8), move |h| h.dev = Some((at as u64 + 8, b)));
            }
        }
    }
    for (k, b) in [[0; 8], [0xff; 8], pattern(0x13)].into_iter().enumerate() {
        add!(format!("server challenge {k}"), move |h| chal(h).sc = b);
        add!(format!("client challenge {k}"), move |h| h.first = b.to_vec());
    }
    add!("client challenge the server's", |h| h.first = chal(h).sc.to_vec());
    add!("other random bytes", |h| h.key = 0);
    for (k, c) in [(0, 0), (0, 99), (1_699_999_999, 999_999_999), (4_294_967_296, 0), (253_402_300_800, 100)].into_iter().enumerate() {
        add!(format!("clock {k}"), move |h| h.clock = c);
    }
    add!("no target information", |h| chal(h).infos.clear());
    add!("an empty list of target information", |h| chal(h).infos = vec![Av::Eol]);
    add!("all target information", |h| chal(h).infos = full_infos());
    add!("target information without a time", |h| chal(h).infos.retain(|a| !matches!(a, Av::Time(_))));
    add!("target information with two times", |h| {
        let c = chal(h);
        c.infos.insert(0, Av::Time(5));
        if c.infos.len() == 1 {
            c.infos.push(Av::Eol);
        }
    });
    for (k, a) in av_letters().into_iter().chain([Av::Time(u64::MAX), Av::Flags(1), Av::Flags(7), Av::Chan([0; 16]), name(9, ""), name(1, &"n".repeat(128))]).enumerate() {
        add!(format!("target information and letter {k}"), move |h| {
            let c = chal(h);
            let at = c.infos.len().saturating_sub(1);
            c.infos.insert(at, a.clone());
            if c.infos.last() != Some(&Av::Eol) {
                c.infos.push(Av::Eol);
            }
        });
    }
    for (k, (major, minor, build)) in [(0, 0, 0), (6, 1, 7601), (255, 255, 65535)].into_iter().enumerate() {
        add!(format!("version {k}"), move |h| {
            let c = chal(h);
            c.flags |= bits(&[VERSION]);
            c.ver = Some(Ver { major, minor, build, rev: 15 });
        });
    }
    // Names that are the same
    add!("the user is the domain", |h| h.cr.user = h.cr.domain.clone());
    add!("the password is the user", |h| h.cr.password = h.cr.user.clone());
    add!("the target is the user", |h| chal(h).name = Some(h.cr.user.clone()).filter(|n| !n.is_empty()));
    add!("the target is the domain", |h| chal(h).name = Some(h.cr.domain.clone()).filter(|n| !n.is_empty()));
    add!("the target is the computer", |h| chal(h).name = some(WORKSTATION));
    add!("the computer is the user", |h| h.ws = Some(Some(h.cr.user.clone())));
    add!("the computer is the domain", |h| h.ws = Some(Some(h.cr.domain.clone())));
    for k in [1, 2, 3, 4] {
        add!(format!("name {k} of the target information is the target's"), move |h| {
            let c = chal(h);
            let n = c.name.clone().unwrap_or_default();
            c.infos.retain(|a| !matches!(a, Av::Name(x, _) if *x == k));
            c.infos.insert(0, name(k, &n));
            if c.infos.last() != Some(&Av::Eol) {
                c.infos.push(Av::Eol);
            }
        });
    }
    add!("built, not read", |h| {
        let c = chal(h).clone();
        h.rounds.last_mut().unwrap().0 = Src::Built(c);
    });
    add!("sent twice", |h| h.rounds.last_mut().unwrap().1 = 2);
    for (k, f) in flag_kinds().into_iter().enumerate() {
        add!(format!("after a handshake of kind {k}"), move |h| {
            let mut c = base_chal(f);
            c.sc = pattern(0x37);
            h.rounds.insert(0, (Src::Wire(c), 1));
        });
    }
    add!("after a handshake without target information", |h| {
        let mut c = base_chal(base_flags() & !bits(&[TARGET_INFO]));
        c.infos.clear();
        h.rounds.insert(0, (Src::Wire(c), 1));
    });
    v
}

/// CHALLENGE messages with at most three departures from the usual one.
pub struct Departed {
    all: Vec<Departure>,
    sets: Vec<Vec<u16>>,
    /// How many of them have at most two
    pub two: usize,
    /// Two of them, of which the second one departs in one respect more, or in another one
    pub pairs: Vec<(usize, usize)>,
}
impl Departed {
    pub fn new() -> Departed {
        let usual = || one(0, Src::Wire(base_chal(base_flags())));
        let mut all = departures(false);
        // Those which concern the message
        all.retain(|d| {
            let mut h = usual();
            d.1(&mut h);
            h.rounds.len() == 1 && h.rounds[0].0.model() != usual().rounds[0].0.model()
        });
        let two = subsets(all.len(), 2).len();
        let n = all.len();
        // The empty set, the sets of one and those of two, in order
        let mut pairs: Vec<(usize, usize)> = (0..n).map(|a| (0, 1 + a)).collect();
        let mut at = 1 + n;
        for a in 0..n {
            for b in a + 1..n {
                // One more, or another instead
                pairs.extend([(1 + a, at), (1 + b, at), (1 + a, 1 + b)]);
                at += 1;
            }
        }
        let d = Departed { sets: subsets(n, 3), all, two, pairs };
        assert!(d.pairs.iter().all(|(x, y)| {
            let (x, y) = (&d.sets[*x], &d.sets[*y]);
            x.iter().all(|e| y.contains(e)) && x.len() + 1 == y.len() || x.len() == 1 && y.len() == 1
        }));
        d
    }
    pub fn len(&self) -> usize {
        self.sets.len()
    }
    pub fn get(&self, i: usize) -> Chal {
        let mut h = one(0, Src::Wire(base_chal(base_flags())));
        for x in &self.sets[i] {
            self.all[*x as usize].1(&mut h);
        }
        let (Src::Built(mut c) | Src::Wire(mut c)) = h.rounds.pop().unwrap().0;
        // Nothing builds a list that is only its end
        if c.infos == [Av::Eol] {
            c.infos.clear();
        }
        agree(&mut c);
        c
    }
}

/// Handshakes with every `k` departures from the usual one; the order in which two of one dimension come counts for little.
fn departed(levels: &'static [u32], k: usize, deep: bool, judge: fn(&Done, &mut Obs) -> Res) -> Space {
    let n = departures(deep).len();
    let (count, case) = departed_cases(levels, k, deep);
    Space::of(&format!("level x every {k} or fewer of {n} departures from the usual handshake"), count, case, move |c, o| run(c, o, &judge))
}

/// The client challenge, where it is seen, and the session key that was exchanged.
fn drawn(d: &Done) -> Result<Vec<Vec<u8>>, String> {
    let a = d.auth()?;
    let mut v = vec![];
    match &a.lm {
        Some(Lm::V2(l)) => v.push(l[16..].to_vec()),
        Some(Lm::V1(l)) if d.level >= 3 => v.push(l[16..].to_vec()),
        Some(Lm::V1(l)) if has(d.chal.flags, ESS) => v.push(l[..8].to_vec()),
        _ => v.push(vec![]),
    }
    v.push(if a.key.is_some() { server::session_key(d.chal.flags, &d.keys(), &d.chal.sc, a)?.to_vec() } else { vec![] });
    Ok(v)
}

/// Each message has its own random values, and they are others when the random source gives others.
pub fn fresh(h: &Case, o: &mut Obs) -> Res {
    let mut all: Vec<Vec<Vec<u8>>> = vec![];
    for key in [3, 4] {
        let mut h = h.clone();
        (h.key, h.dev, h.first) = (key, None, vec![]);
        h.rounds.push(h.rounds[0].clone());
        for (_, times) in &mut h.rounds {
            *times = 2;
        }
        let seen = std::cell::RefCell::new(vec![]);
        run(&h, o, &|d, _| {
            seen.borrow_mut().push(drawn(d)?);
            Ok(())
        })?;
        all.extend(seen.into_inner());
    }
    for (n, a) in all.iter().enumerate() {
        for (m, b) in all[..n].iter().enumerate() {
            for (what, x, y) in [("client challenges", &a[0], &b[0]), ("session keys", &a[1], &b[1])] {
                let alike = x.iter().zip(y).filter(|(x, y)| x == y).count();
                if alike * 2 >= x.len() && !x.is_empty() {
                    return Err(format!("messages {m} and {n} have the {what} {y:x?} and {x:x?}"));
                }
            }
        }
    }
    if all.iter().any(|a| !a[0].is_empty()) {
        o.outcome("compared");
    }
    Ok(())
}

/// How many there are, and each.
pub fn departed_cases(levels: &'static [u32], k: usize, deep: bool) -> (u64, impl Fn(u64) -> Case + Clone + Send + Sync + 'static) {
    let all = Arc::new(departures(deep));
    let sets = Arc::new(subsets(all.len(), k));
    let count = levels.len() as u64 * sets.len() as u64;
    let case = move |i: u64| {
        let mut m = Mix(i);
        let level = *m.of(levels);
        let mut h = one(level, Src::Wire(base_chal(base_flags())));
        let set = &sets[m.0 as usize];
        for x in set {
            all[*x as usize].1(&mut h);
        }
        for (s, _) in &mut h.rounds {
            match s {
                Src::Built(c) | Src::Wire(c) => agree(c),
            }
            // Nothing builds a list that is only its end
            if s.model().infos == [Av::Eol] {
                *s = Src::Wire(s.model().clone());
            }
        }
        h
    };
    (count, case)
}

fn shared(levels: &'static [u32], deep: bool, judge: fn(&Done, &mut Obs) -> Res, see: &[&'static str]) -> Vec<Space> {
    let mut v = vec![];
    // Flags
    let n = if deep { SUBSET.len() } else { 16 };
    v.push(
        Space::of(
            &format!("level x subset of {n} flags of the CHALLENGE"),
            (levels.len() as u64) << n,
            move |i| {
                let mut m = Mix(i);
                let level = *m.of(levels);
                let mut f = 0;
                for b in &SUBSET[..n] {
                    f |= (m.flag() as u32) << b;
                }
                one(level, Src::Built(base_chal(f)))
            },
            move |c, o| run(c, o, &judge),
        )
        .must_see(see),
    );
    let words = near(&flag_bases(), if deep { 3 } else { 2 });
    v.push(Space::of(
        "level x CHALLENGE flags up to a few bits from usual words, from the wire",
        (words.len() * levels.len()) as u64,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            one(level, Src::Wire(base_chal(*m.of(&words))))
        },
        move |c, o| run(c, o, &judge),
    ));
    // Target information
    let mut letters = av_letters();
    letters.extend([1, 2, 3, 4, 5, 9].map(|id| name(id, "")));
    // Only on the wire: nothing in the list is an end of the list but its last pair
    let kb = letters.len() as u64;
    letters.push(Av::Eol);
    let max = if deep { 4 } else { 3 };
    let n = seq_count(letters.len() as u64, max);
    v.push(Space::of(
        &format!("level x up to {max} pairs of target information, ends of the list among them, on the wire"),
        n * levels.len() as u64,
        {
            let letters = letters.clone();
            move |i| {
                let mut m = Mix(i);
                let level = *m.of(levels);
                let mut c = base_chal(base_flags());
                c.infos = seq_at(letters.len() as u64, m.0).into_iter().map(|l| letters[l].clone()).collect();
                if !c.infos.is_empty() || level % 2 == 1 {
                    c.infos.push(Av::Eol);
                }
                one(level, Src::Wire(c))
            }
        },
        move |c, o| run(c, o, &judge),
    ));
    let k = kb;
    let max = if deep { 3 } else { 2 };
    let n = seq_count(k, max);
    v.push(Space::of(
        &format!("level x up to {max} pairs of target information, from the builder"),
        n * levels.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let mut c = base_chal(base_flags());
            c.infos = seq_at(k, m.0).into_iter().map(|l| letters[l].clone()).collect();
            if !c.infos.is_empty() {
                c.infos.push(Av::Eol);
            }
            one(level, Src::Built(c))
        },
        move |c, o| run(c, o, &judge),
    ));
    // Values of the pairs that are not text
    let n = 8 + (16 + 40) * 256;
    v.push(Space::of(
        "level x values of the pairs that are not text x alone or in a list",
        levels.len() as u64 * 3 * n,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let place = m.pick(3);
            let k = m.0;
            let a = if k < 8 {
                Av::Flags(k as u32)
            } else {
                let (at, value) = ((k - 8) as usize / 256, (k - 8) as u8);
                if at < 16 {
                    let mut b = if value & 1 == 0 { [0; 16] } else { pattern(0x71) };
                    b[at] = value;
                    Av::Chan(b)
                } else {
                    let mut b = [0u8; 48];
                    b[0] = 48;
                    b[8..16].copy_from_slice(&pattern::<8>(0x31));
                    b[16..].copy_from_slice(&pattern::<32>(0x55));
                    b[at - 8] = value;
                    Av::Host { size: u32_at(&b, 0), z4: u32_at(&b, 4), custom: b[8..16].try_into().unwrap(), machine: b[16..].try_into().unwrap() }
                }
            };
            let mut c = base_chal(base_flags());
            c.infos = match place {
                0 => vec![a, Av::Eol],
                1 => [vec![a], full_infos()].concat(),
                _ => vec![name(2, "Dom"), a, name(1, "Srv"), Av::Eol],
            };
            one(level, Src::Wire(c))
        },
        move |c, o| run(c, o, &judge),
    ));
    // Every identifier with lengths of its value
    let lens = text_lengths(260, 12);
    v.push(Space::of(
        "level x each name of target information by length",
        levels.len() as u64 * 6 * 3 * lens.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let id = *m.of(&[1, 2, 3, 4, 5, 9]);
            let unit = *m.of(&["x", "é", "😀"]);
            let other = if id == 4 { 3 } else { 4 };
            let mut c = base_chal(base_flags());
            c.infos = vec![name(id, &unit.repeat(lens[m.0 as usize])), name(other, "d"), Av::Time(0x01d9_0000_0000_0001 + m.0), Av::Eol];
            one(level, Src::Wire(c))
        },
        move |c, o| run(c, o, &judge),
    ));
    // Times
    v.push(Space::of(
        "level x time of the server, one bit at a time and its complement, next to a clock",
        levels.len() as u64 * 66 * 2 * 6,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let clock = *m.of(&[(0i64, 0i64), (0, 99), (1, 100), (1_700_000_000, 999_999_999), (253_402_300_799, 999_999_999), (1_800_000_000_000, 1)]);
            let inv = m.flag();
            let b = m.0;
            let mut t = if b < 64 { 1u64 << b } else { 0 };
            if inv {
                t = !t;
            }
            let mut c = base_chal(base_flags());
            c.infos = if b == 65 { vec![name(1, "S"), Av::Eol] } else { vec![name(1, "S"), Av::Time(t), Av::Eol] };
            let mut h = one(level, Src::Wire(c));
            h.clock = clock;
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    // Server challenge and random bytes
    let kinds = flag_kinds();
    v.push(Space::of(
        "level x flags x each byte of server challenge and random stream x each value",
        levels.len() as u64 * 4 * 32 * 256,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let mut c = base_chal(*m.of(&kinds));
            let at = m.pick(32);
            let value = m.0 as u8;
            if at < 8 {
                c.sc[at] = value;
            }
            let mut h = one(level, Src::Built(c));
            if at >= 8 {
                h.dev = Some((at as u64 - 8, value));
                h.key = if value & 1 == 0 { 1 } else { 0 };
            }
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    // Values that have to do with each other
    let kinds = flag_kinds();
    v.push(Space::of(
        "level x flags x server challenge x client challenge x session key, related values",
        levels.len() as u64 * 4 * 12 * 14 * 14,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let mut c = base_chal(*m.of(&kinds));
            let cr = usual();
            let k = server::keys(&cr.password, &cr.user, &cr.domain);
            let base = server::md4(&k.nt);
            let pool: [[u8; 16]; 12] = [
                [0; 16],
                [0xff; 16],
                *b"NTLMSSP\0NTLMSSP\0",
                *b"NTLMSSP\0\x01\0\0\0\0\0\0\0",
                pattern(9),
                k.nt,
                k.lm,
                k.v2,
                base,
                [0xaa; 16],
                [1, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0],
                [0x80; 16],
            ];
            let s = m.of(&pool);
            c.sc.copy_from_slice(&s[..8]);
            let rev: Vec<u8> = c.sc.iter().rev().copied().collect();
            let not: Vec<u8> = c.sc.iter().map(|b| !b).collect();
            let eight = |m: &mut Mix| match m.pick(14) {
                12 => rev.clone(),
                13 => not.clone(),
                n => pool[n][..8].to_vec(),
            };
            let client = eight(&mut m);
            let key = match m.pick(14) {
                12 => [&c.sc[..], &client].concat(),
                13 => [&client[..], &c.sc].concat(),
                n => pool[n].to_vec(),
            };
            let mut h = one(level, Src::Wire(c));
            h.first = [client, key].concat();
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    let kinds = flag_kinds();
    v.push(Space::of(
        "level x flags x user, domain, password, target name and names of the target, equal and different",
        levels.len() as u64 * 4 * 5u64.pow(5),
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let mut c = base_chal(*m.of(&kinds));
            let pool = [WORKSTATION, "", "Server", "ntlm", "NTLM"];
            let mut s = || pool[m.pick(5)].to_string();
            let cr = Creds { user: s(), domain: s(), password: s() };
            c.name = Some(s());
            let t = s();
            c.infos = vec![name(1, &t), name(2, &t), name(9, &format!("HTTP/{t}")), Av::Eol];
            let mut h = one(level, Src::Built(c));
            h.cr = cr;
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    v.push(Space::of(
        "level x target information x clock at each of 7 calls of two handshakes, moving either way",
        levels.len() as u64 * 4 * 7u64.pow(4) * 3,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let (s, n) = (1_700_000_000i64, 500_000_000i64);
            let at = [(s, n), (s, n + 100), (s, n - 100), (s - 1, n + 7_000_000), (s + 1, n), (s - 86_400 * 2, n), (s + 86_400 * 400, 0)];
            let clocks = (0..4).map(|_| *m.of(&at)).collect();
            let infos = [
                vec![name(1, "S"), Av::Eol],
                vec![name(1, "S"), Av::Time(ticks(s, n)), Av::Eol],
                vec![],
                vec![Av::Eol],
            ][m.pick(4)]
            .clone();
            let mut c = base_chal(base_flags());
            c.infos = infos;
            let mut h = one(level, Src::Wire(c.clone()));
            // The clocks are taken in turn, so the same four come at different calls
            h.rounds = match m.pick(3) {
                0 => vec![(Src::Wire(c.clone()), 1), (Src::Wire(c), 1)],
                1 => vec![(Src::Wire(c.clone()), 2), (Src::Wire(c), 1)],
                _ => vec![(Src::Wire(c), 3)],
            };
            h.clocks = clocks;
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    // Accounts
    let nm = names();
    let kinds = flag_kinds();
    v.push(Space::of(
        "level x flags x user x domain x password",
        levels.len() as u64 * 4 * (nm.len() as u64).pow(2) * if deep { nm.len() as u64 } else { 5 },
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let c = base_chal(*m.of(&kinds));
            let user = m.of(&nm).clone();
            let domain = m.of(&nm).clone();
            let password = if deep { m.of(&nm).clone() } else { m.of(&["", "password", "PÄSS wörd 14+ chars", "😀", "zzzzzzzzzzzzzz"]).to_string() };
            let mut h = one(level, Src::Built(c));
            h.cr = Creds { user, domain, password };
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    let kinds = flag_kinds();
    v.push(Space::of(
        "level x flags x meaningful words as user, domain and target name",
        levels.len() as u64 * 4 * if deep { (dictionary().len() as u64).pow(2) * 3 } else { 4 * dictionary().len() as u64 },
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let mut c = base_chal(*m.of(&kinds));
            let a = *m.of(dictionary());
            let (which, b) = if deep { (m.pick(3), *m.of(dictionary())) } else { (m.pick(4), a) };
            let mut cr = usual();
            match which {
                0 => cr = creds(a, b, "Pässword"),
                1 => {
                    cr.user = a.into();
                    c.name = some(b);
                }
                2 => {
                    cr.domain = a.into();
                    c.infos = vec![name(2, b), name(1, a), Av::Eol];
                }
                _ => cr.password = a.into(),
            }
            let mut h = one(level, Src::Built(c));
            h.cr = cr;
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    // Target name and version
    let nm = names();
    v.push(Space::of(
        "level x target name x version x wire or builder",
        levels.len() as u64 * 2 * 2 * (nm.len() as u64 + 1),
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let wire = m.flag();
            let mut c = base_chal(base_flags() | (m.flag() as u32) << VERSION);
            c.name = nm.get(m.0 as usize).filter(|n| !n.is_empty() || !wire).cloned();
            one(level, if wire { Src::Wire(c) } else { Src::Built(c) })
        },
        move |c, o| run(c, o, &judge),
    ));
    // Sizes
    const SIZES: &[usize] = &[0, 1, 255, 256, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 20000, 32767];
    const SIZED: &[&str] = &["x", "é", "Zß日"];
    v.push(Space::of(
        "level x large users, domains, passwords, target names and target informations",
        levels.len() as u64 * 2 * 6 * (SIZES.len() * SIZED.len()) as u64,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let mut c = base_chal(base_flags() ^ if m.flag() { bits(&[ESS]) } else { 0 });
            let which = m.pick(6);
            let (unit, n) = (*m.of(SIZED), *m.of(SIZES));
            // What enters a field counts in bytes of UTF-16
            let s: String = unit.chars().cycle().take(n).collect();
            let mut cr = usual();
            match which {
                0 => cr.user = s,
                1 => cr.domain = s,
                2 => cr.password = s.repeat(3),
                3 => c.name = Some(s),
                // The response has 48 more bytes, and the list its end and head
                4 => c.infos = vec![name(1, &s.chars().take(32767 - 30).collect::<String>()), Av::Eol],
                _ => {
                    c.infos = (0..n.min(3000)).map(|k| name(1 + (k % 5) as u16, &s.chars().take(k % 8).collect::<String>())).collect();
                    c.infos.push(Av::Eol);
                }
            }
            let mut h = one(level, Src::Wire(c));
            h.cr = cr;
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    // Names are limited elsewhere: to 15 letters, or 20, or 64
    const SHORT: [usize; 8] = [0, 1, 7, 8, 14, 15, 16, 17];
    let lens: Vec<usize> = (0..=if deep { 260 } else { 72 }).chain([127, 128, 129, 254, 255, 256, 257, 300, 1000]).collect();
    let single = lens.len() * 3 * 4;
    let per = single + SHORT.len().pow(3) + 1;
    let kinds = flag_kinds();
    v.push(Space::of(
        "level x flags x lengths of user, domain, password and name of the computer",
        (levels.len() * kinds.len() * per) as u64,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let flags = *m.of(&kinds);
            let mut h = one(level, Src::Wire(base_chal(flags)));
            let k = m.0 as usize;
            let text = |unit: &str, n: usize| unit.repeat(n);
            if k < single {
                let mut m = Mix(k as u64);
                let unit = ["x", "É", "𝔘"][m.pick(3)];
                let which = m.pick(4);
                let t = text(unit, *m.of(&lens));
                match which {
                    0 => h.cr.user = t,
                    1 => h.cr.domain = t,
                    2 => h.cr.password = t,
                    _ => h.ws = Some(Some(t)),
                }
            } else if k < per - 1 {
                let mut m = Mix((k - single) as u64);
                h.cr.user = text("u", *m.of(&SHORT));
                h.cr.domain = text("D", *m.of(&SHORT));
                h.ws = Some(Some(text("W", *m.of(&SHORT))));
            } else {
                h.ws = Some(None);
            }
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    // Passwords: derived keys, responses and codes whose bytes take all values, and most pairs of values
    let bits_n = if deep { 23 } else { 19 } - (levels.len() > 3) as u32;
    let kinds = flag_kinds();
    v.push(Space::of(
        &format!("level x 2^{bits_n} passwords x flags, in turn"),
        (levels.len() as u64) << bits_n,
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let n = m.0;
            let mut h = one(level, Src::Built(base_chal(*m.of(&kinds))));
            h.cr.password = format!("pw{n}");
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    // Two neighbouring bytes of the server challenge; of any place and of the random stream
    let all = deep || levels.len() <= 3;
    let kinds = flag_kinds();
    v.push(Space::of(
        &format!("{} flags x every two neighbouring bytes of the server challenge x all their values", if all { "level x" } else { "a level in turn x" }),
        if all { levels.len() as u64 } else { 1 } * 4 * 7 * 65536,
        move |i| {
            let mut m = Mix(i);
            let level = if all { *m.of(levels) } else { levels[((i >> 2) ^ (i >> 10) ^ (i >> 18)) as usize % levels.len()] };
            let mut c = base_chal(*m.of(&kinds));
            let v = m.pick(65536) as u16;
            let at = m.pick(7);
            c.sc[at..at + 2].copy_from_slice(&v.to_le_bytes());
            one(level, Src::Built(c))
        },
        move |c, o| run(c, o, &judge),
    ));
    if deep {
        let kinds = flag_kinds();
        v.push(Space::of(
            "level in turn x flags x every two bytes of the server challenge x all their values",
            4 * 28 * 65536,
            move |i| {
                let mut m = Mix(i);
                let mut c = base_chal(*m.of(&kinds));
                let v = (m.pick(65536) as u16).to_le_bytes();
                let (mut a, mut b) = (0, 1 + m.pick(28));
                while b > 7 - a {
                    b -= 7 - a;
                    a += 1;
                }
                c.sc[a] = v[0];
                c.sc[a + b] = v[1];
                one(levels[((i >> 2) ^ (i >> 10) ^ (i >> 18)) as usize % levels.len()], Src::Built(c))
            },
            move |c, o| run(c, o, &judge),
        ));
    }
    v.push(departed(levels, 3, deep, judge));
    // Repeated messages and handshakes of one client
    let kinds = flag_kinds();
    let chals: Vec<Chal> = kinds
        .iter()
        .flat_map(|f| {
            let a = base_chal(*f);
            let mut b = a.clone();
            b.sc = pattern(0x13);
            b.infos = vec![];
            b.name = None;
            let mut c = a.clone();
            c.infos = full_infos();
            [a, b, c]
        })
        .collect();
    let rounds = if deep { 3 } else { 2 };
    v.push(Space::of(
        &format!("level x {rounds} handshakes of one client, each with one of 12 CHALLENGE messages and 0 to 3 AUTHENTICATE messages"),
        levels.len() as u64 * 48u64.pow(rounds),
        move |i| {
            let mut m = Mix(i);
            let level = *m.of(levels);
            let mut h = one(level, Src::Built(chals[0].clone()));
            h.rounds = (0..rounds).map(|_| (Src::Built(m.of(&chals).clone()), m.pick(4))).collect();
            h
        },
        move |c, o| run(c, o, &judge),
    ));
    v
}

pub fn c12(deep: bool) -> Vec<Space> {
    shared(&[0, 1, 2], deep, judge_v1, &["extended session security", "LM response from the LM key", "LM response is the NT response"])
}
pub fn c13(deep: bool) -> Vec<Space> {
    let mut v = shared(&[3, 4, 5], deep, judge_v2, &["time of the server"]);
    v.iter_mut().find(|s| s.name.contains("time of the server")).unwrap().must_see = vec!["time of the server", "current time"];
    v
}
pub fn c14(deep: bool) -> Vec<Space> {
    shared(
        &[0, 1, 2, 3, 4, 5],
        deep,
        judge_key,
        &["NTLMv2 key", "extended session security key", "LM key", "non-NT key", "session base key", "key exchanged", "key not exchanged"],
    )
}
pub fn c15(deep: bool) -> Vec<Space> {
    let mut v = shared(&[3, 4, 5], deep, judge_mic, &[]);
    // The computation alone, on any messages
    let msgs = base_msgs();
    let negs: Vec<Msg> = msgs.iter().map(|m| m.1.clone()).filter(|m| m.kind() == Kind::Neg).collect();
    let chals: Vec<Msg> = msgs.iter().map(|m| m.1.clone()).filter(|m| m.kind() == Kind::Chal).collect();
    let auths: Vec<Msg> = msgs.iter().map(|m| m.1.clone()).filter(|m| m.kind() == Kind::Auth).collect();
    let n = negs.len() * chals.len() * auths.len();
    v.push(
        Space::of(
            "NEGOTIATE x CHALLENGE x AUTHENTICATE x session key x integrity code it held before",
            (n * 4 * (2 + 16 * 8)) as u64,
            move |i| {
                let mut m = Mix(i);
                let (n, c, a) = (m.of(&negs).clone(), m.of(&chals).clone(), m.of(&auths).clone());
                let key: [u8; 16] = *m.of(&[[0; 16], [0xff; 16], pattern(0x17), pattern(0xa2)]);
                let before = match m.0 {
                    0 => [0u8; 16],
                    1 => [0xff; 16],
                    k => {
                        let mut b = [0u8; 16];
                        b[(k as usize - 2) / 8] = 1 << ((k - 2) % 8);
                        b
                    }
                };
                (n, c, a, key, before)
            },
            |(n, c, a, key, before), o| {
                let want = server::mic(key, &encode(n), &encode(c), &encode(a));
                o.steps(2);
                let got = guard(|| {
                    let mut r = auth_r(a.auth());
                    r.mic = (*before).into();
                    r.exported_session_key = Some((*key).into());
                    let (n, c) = (neg_r(n.neg()), chal_r(c.chal()));
                    r.compute_mic(&n, &c);
                    let first: [u8; 16] = (&r.mic[..]).try_into().unwrap();
                    r.compute_mic(&n, &c);
                    let second: [u8; 16] = (&r.mic[..]).try_into().unwrap();
                    let mut rest = auth_m(&r);
                    rest.mic = a.auth().mic;
                    (first, second, Msg::Auth(rest))
                })?;
                o.state(&(want, before));
                if got.0 != want || got.1 != want {
                    return Err(format!("the integrity code is {:x?}, then {:x?}, expected {want:x?}", got.0, got.1));
                }
                if !same(&got.2, a) {
                    return Err(format!("computing the code changed the message to {:x?}", got.2));
                }
                Ok(())
            },
        ),
    );
    v
}
pub fn c22(deep: bool) -> Vec<Space> {
    shared(&[0, 1, 2, 3, 4, 5], deep, judge_flags, &["with a key", "without a key"])
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug)]
struct Account {
    cr: Creds,
}

/// The keys behind the responses, one level for each kind of key.
fn judge_keys(cr: &Creds, o: &mut Obs) -> Res {
    let k = server::keys(&cr.password, &cr.user, &cr.domain);
    o.state(&(k.nt, k.lm, k.v2));
    let f = base_flags();
    // The responses of level 0 show NT and LM key, the session key the second half of the LM key
    let flags = f & !bits(&[ESS, KEY_EXCH]) | bits(&[LM_KEY]);
    let check0 = |d: &Done, o: &mut Obs| -> Res {
        let a = d.auth()?;
        o.steps(1);
        server::verify_v1(0, flags, &k, &d.chal.sc, a)?;
        let want = server::session_key(flags, &k, &d.chal.sc, a)?;
        if d.held != Some(want) {
            return Err(format!("session key {:x?} does not follow from the LM key, expected {want:x?}", d.held));
        }
        sent_names(cr, a)
    };
    let mut c = one(0, Src::Built(base_chal(flags)));
    c.cr = cr.clone();
    run(&c, o, &check0)?;
    let check3 = |d: &Done, _: &mut Obs| -> Res {
        server::verify_v2(&k, d.chal, d.now, d.bytes)?;
        sent_names(cr, d.auth()?)
    };
    let mut c = one(3, Src::Built(base_chal(f)));
    c.cr = cr.clone();
    run(&c, o, &check3)
}

fn accounts(name: &str, len: u64, f: impl Fn(u64) -> Creds + Send + Sync + Clone + 'static) -> Space {
    Space::of(name, len, move |i| Account { cr: f(i) }, |a: &Account, o| {
        o.outcome(if a.cr.password.is_ascii() && a.cr.user.is_ascii() && a.cr.domain.is_ascii() { "ASCII" } else { "not ASCII" });
        judge_keys(&a.cr, o)
    })
}

/// Strings over an alphabet.
fn text_at(alphabet: &[&str], i: u64) -> String {
    seq_at(alphabet.len() as u64, i).into_iter().map(|l| alphabet[l]).collect()
}

pub fn c11(deep: bool) -> Vec<Space> {
    const LETTERS: &[&str] = &["a", "Z", "1", " ", "é", "ß", "日", "😀", "ŉ", "\u{0}"];
    const UNITS: &[&str] = &["a", "é", "日", "😀", "ß", "aÉ", "Pass\\"];
    let long = if deep { 6 } else { 5 };
    let mut v = vec![
        accounts("every character as password", SCALARS, |i| creds("User", "Domain", &scalar(i).to_string())),
        accounts("every character as user", SCALARS, |i| creds(&scalar(i).to_string(), "Domain", "Password")),
        accounts("every character as domain", SCALARS, |i| creds("User", &scalar(i).to_string(), "Password")),
        accounts("strings over special letters as password", seq_count(10, long), |i| creds("User", "Domain", &text_at(LETTERS, i))),
        accounts("strings over special letters as user", seq_count(10, long - 1), |i| creds(&text_at(LETTERS, i), "Dom", "Password")),
        accounts("strings over special letters as domain", seq_count(10, long - 1), |i| creds("User", &text_at(LETTERS, i), "Password")),
        accounts("passwords, users and domains by length", 7 * 3 * 301, |i| {
            let mut m = Mix(i);
            let unit = *m.of(UNITS);
            let which = m.pick(3);
            let s = unit.repeat(m.0 as usize);
            match which {
                0 => creds("User", "Domain", &s),
                1 => creds(&s, "Domain", "Password"),
                _ => creds("User", &s, "Password"),
            }
        }),
        accounts("large passwords, users and domains", 7 * 3 * 24, |i| {
            let mut m = Mix(i);
            let unit = *m.of(UNITS);
            let which = m.pick(3);
            let n = [511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5461, 8191, 8192, 8193, 10922, 16383, 16384, 16385, 32765, 32766, 32767, 100_000][m.pick(24)];
            // Names fit into their field (the domain also in the NEGOTIATE message), passwords have none
            let wide = unit.chars().map(|c| c.len_utf8().max(2 * c.len_utf16())).max().unwrap();
            let s: String = unit.chars().cycle().take(if which == 0 { n } else { n.min(65535 / wide) }).collect();
            match which {
                0 => creds("User", "Domain", &s),
                1 => creds(&s, "Domain", "Password"),
                _ => creds("User", &s, "Password"),
            }
        }),
        accounts("a character at each of the first 20 positions of a password", 20 * 40 * 3, |i| {
            let mut m = Mix(i);
            let at = m.pick(20);
            let tail = m.pick(3) * 10;
            const CHARS: &[char] = &[
                'a', 'z', 'A', 'é', 'É', 'ÿ', 'ß', 'ŉ', 'ǆ', 'ΐ', 'ﬃ', 'ı', 'İ', 'µ', 'ς', 'σ', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}',
                '\u{10428}', '日', '😀', '\0', '\n', ' ', '\\', '@', '\u{345}', '\u{1e9e}', '\u{fb00}', '\u{2170}', '\u{24d0}', '\u{a64b}', '\u{ab70}', '\u{d7ff}', '\u{e000}',
            ];
            let c = *m.of(CHARS);
            creds("User", "Domain", &format!("{}{c}{}", "a".repeat(at), "z".repeat(tail)))
        }),
        accounts("meaningful words as password, user and domain", (dictionary().len() as u64).pow(2) * 3, |i| {
            let mut m = Mix(i);
            let (a, b) = (*m.of(dictionary()), *m.of(dictionary()));
            match m.pick(3) {
                0 => creds(a, b, "Password"),
                1 => creds(a, "Domain", b),
                _ => creds("User", a, b),
            }
        }),
        accounts("every byte pair as ASCII password of 2 characters at the cut of the LM key", 128 * 128, |i| {
            let mut m = Mix(i);
            let (a, b) = (m.pick(128) as u8 as char, m.pick(128) as u8 as char);
            creds("User", "Domain", &format!("sixcha{a}sixcha{b}"))
        }),
    ];
    if deep {
        v.push(accounts("every character at the cut of the LM key", SCALARS * 3, |i| {
            let mut m = Mix(i);
            let n = *m.of(&[5usize, 6, 13]);
            creds("User", "Domain", &format!("{}{}b", "a".repeat(n), scalar(m.0)))
        }));
        v.push(accounts("every character in the middle of user and domain", SCALARS * 2, |i| {
            let mut m = Mix(i);
            let which = m.flag();
            let s = format!("a{}b", scalar(m.0));
            if which {
                creds(&s, "Domain", "Password")
            } else {
                creds("User", &s, "Password")
            }
        }));
    }
    v[0].must_see = vec!["ASCII", "not ASCII"];
    v
}

// ---------------------------------------------------------------- C18

pub fn negotiate_flags(level: u32, domain: &str) -> u32 {
    let mut f = bits(&[UNICODE, OEM, SIGN, SEAL, ALWAYS_SIGN, N128, REQUEST_TARGET]);
    f |= match level {
        0 => bits(&[NTLM, LM_KEY, KEY_EXCH]),
        1 => bits(&[NTLM, ESS]),
        _ => bits(&[ESS, KEY_EXCH, TARGET_INFO]),
    };
    if !domain.is_empty() {
        f |= bits(&[DOMAIN_SUPPLIED]);
    }
    f
}

fn judge_neg(level: u32, domain: &str, bytes: &[u8]) -> Res {
    let n = parse(Kind::Neg, bytes).map_err(|e| format!("the NEGOTIATE message is malformed: {e}: {bytes:x?}"))?;
    let n = n.neg();
    // The target type is the server's to set; it weakens nothing
    let mut free = bits(&[TYPE_SERVER]);
    let want = negotiate_flags(level, domain);
    if n.ver.is_some() {
        free |= bits(&[VERSION]);
    }
    if norm(&n.ws).is_some() {
        free |= bits(&[WS_SUPPLIED]);
    }
    if n.flags & !free != want {
        return Err(format!("level {level} offers {:#x}, expected {want:#x}", n.flags & !free));
    }
    if n.domain.as_deref().unwrap_or("") != domain {
        return Err(format!("the domain is {:?}, expected {domain:?}", n.domain));
    }
    Ok(())
}

pub fn c18(deep: bool) -> Vec<Space> {
    #[derive(Clone, Debug)]
    struct Offer {
        level: u32,
        domain: String,
        /// 0: alone, else after earlier calls
        history: usize,
    }
    let run_offer = |c: &Offer, o: &mut Obs| -> Res {
        let chal = base_chal(base_flags());
        let cr = Creds { domain: c.domain.clone(), ..usual() };
        let (r, _) = with_rng(rng_key(1), || {
            let mut cl = guard(|| client(c.level, &cr)).map_err(|e| format!("building the client panicked: {e}"))?;
            let mut earlier = vec![];
            for k in 0..c.history {
                o.steps(1);
                let _ = guard(|| match k % 3 {
                    0 => earlier.push(cl.negotiate()),
                    1 => cl.challenge(chal_r(&chal)),
                    _ => {
                        cl.authenticate();
                    }
                });
            }
            o.steps(1);
            let sent = guard(|| cl.negotiate());
            o.state(&(c.level, &c.domain, sent.as_ref().ok()));
            if c.level > 5 {
                o.outcome("refused");
                return match sent {
                    Ok(b) => Err(format!("level {} sent {b:x?}", c.level)),
                    Err(_) => Ok(()),
                };
            }
            o.outcome("offered");
            let sent = sent.map_err(|e| format!("send_negociate panicked: {e}"))?;
            for e in &earlier {
                judge_neg(c.level, &c.domain, e)?;
            }
            judge_neg(c.level, &c.domain, &sent)
        });
        r
    };
    const LEVELS: [u32; 8] = [0, 1, 2, 3, 4, 5, 6, u32::MAX];
    let nm = names();
    let long = if deep { 2000 } else { 300 };
    // Every small number, and those that are small when cut
    let mut levels: Vec<u32> = (6..if deep { 1 << 20 } else { 1 << 14 }).collect();
    for k in 3..32 {
        for d in 0..8 {
            levels.push((1 << k) + d);
            levels.push(u32::MAX << k | d);
        }
    }
    levels.retain(|l| *l > 5);
    vec![
        Space::of(
            "level x name as domain x calls before",
            8 * nm.len() as u64 * 7,
            move |i| {
                let mut m = Mix(i);
                Offer { level: *m.of(&LEVELS), domain: m.of(&nm).clone(), history: m.0 as usize % 7 }
            },
            run_offer,
        )
        .must_see(&["offered", "refused"]),
        Space::of(
            "level x meaningful word, alone or before another, as domain",
            6 * (dictionary().len() * (dictionary().len() + 1)) as u64,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let first = *m.of(dictionary());
                let k = m.0 as usize;
                Offer { level, domain: if k == 0 { first.to_string() } else { format!("{first}{}", dictionary()[k - 1]) }, history: 0 }
            },
            run_offer,
        ),
        Space::of(
            "levels that do not exist x calls before",
            levels.len() as u64 * 4,
            move |i| {
                let mut m = Mix(i);
                Offer { level: *m.of(&levels), domain: "D".into(), history: m.0 as usize % 4 }
            },
            run_offer,
        )
        .must_see(&["refused"]),
        Space::of(
            "level x every character as domain",
            if deep { 6 * SCALARS } else { SCALARS },
            move |i| {
                let level = if deep { (i % 6) as u32 } else { [0, 1, 3][(i % 3) as usize] };
                let c = scalar(if deep { i / 6 } else { i });
                Offer { level, domain: c.to_string(), history: 0 }
            },
            run_offer,
        ),
        Space::of(
            "level x domains by length",
            6 * 4 * long,
            |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let unit = *m.of(&["D", "é", "日", "😀"]);
                Offer { level, domain: unit.repeat(m.0 as usize), history: 0 }
            },
            run_offer,
        ),
        {
            // Up to what the field of the message holds
            let lens: Vec<usize> = (8..=16).flat_map(|b| [(1usize << b) - 2, (1 << b) - 1, 1 << b, (1 << b) + 1, 3 << (b - 1), 7 << (b - 2)]).chain([65_000, 65_533, 65_534, 65_535]).collect();
            Space::of(
                "level x large domains x calls before",
                (6 * 4 * 2 * lens.len()) as u64,
                move |i| {
                    let mut m = Mix(i);
                    let level = m.pick(6) as u32;
                    let unit = *m.of(&["D", "é", "日", "😀"]);
                    let history = m.pick(2);
                    let n = m.of(&lens).min(&65_535) / unit.len();
                    Offer { level, domain: unit.repeat(n), history }
                },
                run_offer,
            )
        },
    ]
}

// ---------------------------------------------------------------- C19

pub fn split_account(account: &str) -> (String, String) {
    let c: Vec<char> = account.chars().collect();
    let s = |r: &[char]| r.iter().collect::<String>();
    if let Some(p) = c.iter().position(|c| *c == '\\') {
        return (s(&c[p + 1..]), s(&c[..p]));
    }
    if let Some(p) = c.iter().position(|c| *c == '@') {
        return (s(&c[..p]), s(&c[p + 1..]));
    }
    (account.to_string(), String::new())
}

#[derive(Clone, Debug)]
enum Named {
    Account(String),
    Both(String, String),
}

fn judge_named(level: u32, n: &Named, o: &mut Obs) -> Res {
    let (user, domain) = match n {
        Named::Account(a) => split_account(a),
        Named::Both(u, d) => (u.clone(), d.clone()),
    };
    let cr = creds(&user, &domain, "Password");
    let k = server::keys("Password", &user, &domain);
    o.state(&(level, &user, &domain));
    if let Named::Account(a) = n {
        o.outcome(match (a.contains('\\'), a.contains('@')) {
            (true, _) => "backslash",
            (_, true) => "at sign",
            _ => "bare",
        });
    }
    let chal = base_chal(base_flags());
    let (r, _) = with_rng(rng_key(1), || {
        with_clock(NOW.0, NOW.1, || {
            let mut cl = guard(|| match n {
                Named::Account(a) => client_account(level, a, "Password"),
                Named::Both(u, d) => client(level, &creds(u, d, "Password")),
            })
            .map_err(|e| format!("building the client panicked: {e}"))?;
            let neg = guard(|| cl.negotiate())?;
            let bytes = guard(|| {
                cl.challenge(chal_r(&chal));
                cl.authenticate()
            })?;
            o.steps(3);
            let neg = parse(Kind::Neg, &neg)?;
            if neg.neg().domain.as_deref().unwrap_or("") != domain {
                return Err(format!("NEGOTIATE names the domain {:?}, expected {domain:?}", neg.neg().domain));
            }
            let a = parse(Kind::Auth, &bytes).map_err(|e| format!("the AUTHENTICATE message is malformed: {e}"))?;
            sent_names(&cr, a.auth())?;
            if level >= 3 {
                server::verify_v2(&k, &chal, ticks(NOW.0, NOW.1), &bytes)?;
            }
            Ok(())
        })
    });
    r
}

pub fn c19(deep: bool) -> Vec<Space> {
    const LETTERS: &[&str] = &["\\", "@", "a", "B", ".", "é", "😀", " ", "/"];
    let k = LETTERS.len() as u64;
    let long = if deep { 6 } else { 5 };
    let both = if deep { 4 } else { 3 };
    let n = seq_count(k, both);
    let mut v = vec![
        Space::of(
            &format!("accounts of up to {long} letters x level"),
            seq_count(k, long) * 2,
            |i| (if i % 2 == 0 { 0 } else { 3 }, Named::Account(text_at(LETTERS, i / 2))),
            |(l, n), o| judge_named(*l, n, o),
        )
        .must_see(&["backslash", "at sign", "bare"]),
        Space::of(
            &format!("user and domain of up to {both} letters each, given apart"),
            n * n,
            move |i| (3u32, Named::Both(text_at(LETTERS, i % n), text_at(LETTERS, i / n))),
            |(l, n), o| judge_named(*l, n, o),
        ),
        Space::of(
            "every character in an account of each form",
            SCALARS * if deep { 8 } else { 2 },
            move |i| {
                let c = scalar(i % SCALARS);
                let form = if deep { i / SCALARS } else { (i / SCALARS) * 4 + i % 4 };
                let a = match form {
                    0 => format!("{c}\\u"),
                    1 => format!("D\\{c}"),
                    2 => format!("{c}@d"),
                    3 => format!("u@{c}"),
                    4 => format!("{c}"),
                    5 => format!("D\\u{c}@x"),
                    6 => format!("x{c}y"),
                    _ => format!("{c}{c}\\{c}@{c}"),
                };
                (4u32, Named::Account(a))
            },
            |(l, n), o| judge_named(*l, n, o),
        ),
        Space::of(
            "levels x names as user x names as domain x form",
            6 * 3 * (names().len() as u64).pow(2),
            |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let form = m.pick(3);
                let nm = names();
                let (u, d) = (m.of(&nm).clone(), m.of(&nm).clone());
                (
                    level,
                    match form {
                        0 => Named::Account(format!("{d}\\{u}")),
                        1 => Named::Account(format!("{u}@{d}")),
                        _ => Named::Both(u, d),
                    },
                )
            },
            |(l, n), o| judge_named(*l, n, o),
        ),
        departed(&[0, 1, 2, 3, 4, 5], if deep { 3 } else { 2 }, deep, |d, _| sent_names(d.cr, d.auth()?)),
    ];
    v.push(Space::of(
        "meaningful words as user x as domain x form",
        4 * (dictionary().len() as u64).pow(2),
        |i| {
            let mut m = Mix(i);
            let form = m.pick(4);
            let (u, d) = (*m.of(dictionary()), *m.of(dictionary()));
            (
                *[0u32, 3].get(form & 1).unwrap(),
                match form {
                    0 => Named::Account(format!("{d}\\{u}")),
                    1 => Named::Account(format!("{u}@{d}")),
                    2 => Named::Account(format!("{d}{u}")),
                    _ => Named::Both(u.to_string(), d.to_string()),
                },
            )
        },
        |(l, n), o| judge_named(*l, n, o),
    ));
    v.push(Space::of(
        "accounts by length",
        3 * 400,
        |i| {
            let mut m = Mix(i);
            let form = m.pick(3);
            let s = "uż".repeat(m.0 as usize);
            (
                5u32,
                Named::Account(match form {
                    0 => s,
                    1 => format!("{s}\\{s}"),
                    _ => format!("{s}@{s}"),
                }),
            )
        },
        |(l, n), o| judge_named(*l, n, o),
    ));
    v
}
