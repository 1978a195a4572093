//! C31: values keep their content when they are converted, copied, compared and printed.

use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use crate::real::*;
use crate::server;
use crate::spec::*;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::{Authenticate, Challenge, Negotiate};
use std::fmt::Debug;
use std::ops::{Deref, DerefMut};

// ---------------------------------------------------------------- fixed-size byte values

trait Bytes: Clone + Default + PartialEq + Debug + Deref<Target = [u8]> + DerefMut {
    fn make(b: &[u8]) -> Self;
    fn draw() -> Self;
}
macro_rules! bytes {
    ($($t:ident $n:literal,)*) => {
        $(impl Bytes for st::$t {
            fn make(b: &[u8]) -> Self {
                let a: [u8; $n] = b.try_into().unwrap();
                a.into()
            }
            fn draw() -> Self {
                st::$t::random()
            }
        })*
        const TYPES: &[(&str, usize, fn(&[u8], usize, u8) -> Res, fn(Rng) -> (Result<Vec<u8>, String>, Rng))] =
            &[$((stringify!($t), $n, hold::<st::$t>, drawn::<st::$t>),)*];
    };
}
bytes! {
    ServerChallenge 8, ClientChallenge 8, SessionBaseKey 16, KeyExchangeKey 16, ExportedSessionKey 16,
    EncryptedRandomSessionKey 16, NtProofStr 16, Response16 16, Response24 24, Mic 16, RandomPad 4,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn hold<T: Bytes>(base: &[u8], at: usize, v: u8) -> Res {
    let mut want = base.to_vec();
    want[at] = v;
    let a = T::make(&want);
    if a[..] != want[..] {
        return Err(format!("made of {want:x?}, it holds {:x?}", &a[..]));
    }
    let text = format!("{a:?}");
    if text != hex(&want) {
        return Err(format!("{want:x?} is printed as {text}"));
    }
    let text = format!("{a:#?}");
    if text != hex(&want) {
        return Err(format!("{want:x?} is pretty-printed as {text}"));
    }
    let c = a.clone();
    if c[..] != want[..] || c != a {
        return Err(format!("the copy of {want:x?} holds {:x?}", &c[..]));
    }
    let mut b = T::make(base);
    if (b == a) != (base == want) || (a == b) != (base == want) {
        return Err(format!("{base:x?} and {want:x?} compare as {}", a == b));
    }
    b[at] = v;
    if b[..] != want[..] || b != a {
        return Err(format!("{base:x?} with byte {at} set to {v:x} is {:x?}", &b[..]));
    }
    b.copy_from_slice(base);
    if b[..] != *base {
        return Err(format!("overwritten with {base:x?} it holds {:x?}", &b[..]));
    }
    if T::default().iter().any(|b| *b != 0) {
        return Err(format!("the default is {:x?}", &T::default()[..]));
    }
    Ok(())
}

fn drawn<T: Bytes>(rng: Rng) -> (Result<Vec<u8>, String>, Rng) {
    with_rng(rng, || guard(|| T::draw().to_vec()))
}

/// Which bytes of the value change with each byte of the random stream.
fn run_drawn(ty: usize, key: u64, faults: &[(u32, Fault)], lasting: bool, o: &mut Obs) -> Res {
    let (name, n, _, f) = TYPES[ty];
    let rng = |dev| Rng { key, dev, faults: faults.to_vec(), fail_from: lasting.then_some(faults.len() as u32), ..Default::default() };
    let (base, after) = f(rng(None));
    o.steps(1);
    let base = match base {
        Err(_) => {
            o.outcome("no value");
            return if faults.is_empty() && !lasting { Err(format!("{name}: no random value")) } else { Ok(()) };
        }
        Ok(b) => b,
    };
    o.state(&(ty, &base));
    if base.len() != n {
        return Err(format!("{name}: {} random bytes", base.len()));
    }
    if (after.delivered as usize) < n {
        return Err(format!("{name}: the value {base:x?} was made of {} random bytes", after.delivered));
    }
    let mut from = vec![None; n];
    for p in 0..after.delivered {
        let (v, _) = f(rng(Some((p, !stream_byte(key, p)))));
        o.steps(1);
        let Ok(v) = v else { continue };
        for at in (0..n).filter(|at| v[*at] != base[*at]) {
            if let Some(q) = from[at] {
                return Err(format!("{name}: byte {at} depends on the random bytes {q} and {p}"));
            }
            if let Some(other) = (0..n).find(|k| from[*k] == Some(p)) {
                return Err(format!("{name}: the bytes {other} and {at} are made of the same random byte {p}"));
            }
            from[at] = Some(p);
        }
    }
    if let Some(at) = from.iter().position(|f| f.is_none()) {
        return Err(format!("{name}: byte {at} of {base:x?} is not random"));
    }
    o.outcome("random");
    Ok(())
}

// ---------------------------------------------------------------- text

fn text_of(s: &str) -> Res {
    let mut a = Authenticate::default();
    a.user = Some(s.into());
    a.domain = Some(s.to_string().into());
    a.workstation = Some("x".into());
    let (u, d) = (a.user.clone().unwrap(), a.domain.clone().unwrap());
    if u.as_str() != s || d.as_str() != s {
        return Err(format!("a name made of {s:?} is {:?} or {:?}", u.as_str(), d.as_str()));
    }
    if u != d || d != u || (u == a.workstation.clone().unwrap()) != (s == "x") {
        return Err(format!("names made of {s:?} compare wrongly"));
    }
    if format!("{u}") != s || format!("{u:?}") != format!("{s:?}") || format!("{u:>9}|{u:.2}") != format!("{s:>9}|{s:.2}") {
        return Err(format!("{s:?} is printed as {u} and {u:?}"));
    }
    let mut w = u.clone();
    w.push('!');
    if w.as_str() != format!("{s}!") || w == u {
        return Err(format!("{s:?} with ! appended is {:?}", w.as_str()));
    }
    let back: String = u.into();
    if back != s {
        return Err(format!("a name made of {s:?} becomes {back:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- messages

/// Values that differ in one field or several.
fn family() -> Vec<Msg> {
    let mut v: Vec<Msg> = base_msgs().into_iter().map(|(_, m)| m).collect();
    let nm: Vec<Option<String>> = ["", "A", "a", "AB", "é", "😀"].iter().map(|s| some(s)).chain([None]).collect();
    let vers = [None, Some(ver()), Some(Ver { major: 11, ..ver() }), Some(Ver { minor: 3, ..ver() }), Some(Ver { build: 1, ..ver() }), Some(Ver { rev: 14, ..ver() })];
    let f = base_flags();
    for n in &nm {
        for x in &vers {
            v.push(Msg::Neg(Neg { flags: f, domain: n.clone(), ws: None, ver: x.clone() }));
            v.push(Msg::Neg(Neg { flags: f, domain: None, ws: n.clone(), ver: x.clone() }));
            v.push(Msg::Chal(Chal { flags: f, name: n.clone(), sc: [1; 8], infos: vec![], ver: x.clone() }));
        }
        for k in 0..3 {
            let mut a = Auth { flags: f, ..Default::default() };
            match k {
                0 => a.domain = n.clone(),
                1 => a.user = n.clone(),
                _ => a.ws = n.clone(),
            }
            v.push(Msg::Auth(a));
        }
    }
    for b in 0..32 {
        v.push(Msg::Neg(Neg { flags: f ^ 1 << b, ..Default::default() }));
        v.push(Msg::Chal(Chal { flags: f ^ 1 << b, ..Default::default() }));
        v.push(Msg::Auth(Auth { flags: f ^ 1 << b, ..Default::default() }));
    }
    for at in 0..16 {
        let mut b = [7u8; 16];
        b[at] = 8;
        v.push(Msg::Auth(Auth { flags: f, mic: b, ..Default::default() }));
        v.push(Msg::Auth(Auth { flags: f, key: Some(b), ..Default::default() }));
        let sc: [u8; 8] = b[..8].try_into().unwrap();
        v.push(Msg::Chal(Chal { flags: f, sc, ..Default::default() }));
    }
    for at in 0..24 {
        let mut b = [7u8; 24];
        b[at] = 8;
        for lm in [Lm::V1(b), Lm::V2(b)] {
            v.push(Msg::Auth(Auth { flags: f, lm: Some(lm), ..Default::default() }));
        }
        v.push(Msg::Auth(Auth { flags: f, nt: Some(Nt::V1(b)), ..Default::default() }));
    }
    let mut lists: Vec<Vec<Av>> = av_letters().into_iter().map(|a| vec![a, Av::Eol]).collect();
    lists.extend(av_letters().windows(2).flat_map(|w| [vec![w[0].clone(), w[1].clone(), Av::Eol], vec![w[1].clone(), w[0].clone(), Av::Eol]]));
    for bit in 0..3 {
        lists.push(vec![Av::Flags(1 << bit), Av::Eol]);
    }
    for l in lists {
        v.push(Msg::Chal(Chal { flags: f, infos: l.clone(), ..Default::default() }));
        for nt in [Nt::V2(Blob { infos: l.clone(), ..blob() }), Nt::V2R(pattern(1), Blob { infos: l.clone(), ..blob() })] {
            v.push(Msg::Auth(Auth { flags: f, nt: Some(nt), ..Default::default() }));
        }
    }
    for k in 0..64 {
        v.push(Msg::Auth(Auth { flags: f, nt: Some(Nt::V2R(pattern(1), Blob { time: 0x01d9_0000_0000_0000 ^ 1 << k, ..blob() })), ..Default::default() }));
    }
    v.sort_by_key(|m| encode(m));
    v.dedup();
    v
}

/// Target information that differs in one part.
fn av_family() -> Vec<Av> {
    let mut v = av_letters();
    for id in [1, 2, 3, 4, 5, 9] {
        for s in ["", "A", "a", "AB", "Ab", "A ", "é", "É", "e\u{301}", "😀", "😁"] {
            v.push(name(id, s));
        }
    }
    for bits in 0..8 {
        v.push(Av::Flags(bits));
    }
    for b in 0..64 {
        v.push(Av::Time(1 << b));
    }
    for at in 0..16 {
        let mut c = [7u8; 16];
        c[at] = 8;
        v.push(Av::Chan(c));
    }
    let h = |size: u32, z4: u32, custom: [u8; 8], machine: [u8; 32]| Av::Host { size, z4, custom, machine };
    for b in 0..32 {
        v.push(h(48 ^ 1 << b, 0, [7; 8], [7; 32]));
        v.push(h(48, 1 << b, [7; 8], [7; 32]));
        let mut m = [7; 32];
        m[b as usize] = 8;
        v.push(h(48, 0, [7; 8], m));
    }
    for at in 0..8 {
        let mut c = [7; 8];
        c[at] = 8;
        v.push(h(48, 0, c, [7; 32]));
    }
    v.push(Av::Eol);
    v.sort_by_key(|a| format!("{a:?}"));
    v.dedup();
    v
}

/// The message with one part changed, each in turn.
fn mutants(m: &Msg) -> Vec<Msg> {
    fn names(n: &Option<String>) -> Vec<Option<String>> {
        let s = n.clone().unwrap_or_default();
        [None, some(""), Some(format!("{s}x")), Some(s.to_lowercase()), Some(s.to_uppercase()), Some(s.chars().rev().collect()), Some(s.clone())].into_iter().collect()
    }
    fn vers(v: &Option<Ver>) -> Vec<Option<Ver>> {
        let x = v.clone().unwrap_or(ver());
        vec![None, Some(Ver { major: x.major ^ 1, ..x.clone() }), Some(Ver { minor: x.minor ^ 1, ..x.clone() }), Some(Ver { build: x.build ^ 1, ..x.clone() }), Some(Ver { build: x.build ^ 256, ..x.clone() }), Some(Ver { rev: 14, ..x.clone() }), Some(x)]
    }
    fn bytes<const N: usize>(b: &[u8; N]) -> Vec<[u8; N]> {
        (0..N * 8)
            .map(|k| {
                let mut c = *b;
                c[k / 8] ^= 1 << (k % 8);
                c
            })
            .collect()
    }
    fn lists(l: &[Av]) -> Vec<Vec<Av>> {
        let pairs = &l[..l.len().saturating_sub(1)];
        let mut v: Vec<Vec<Av>> = vec![vec![]];
        for k in 0..pairs.len() {
            let mut less = pairs.to_vec();
            less.remove(k);
            let mut twice = pairs.to_vec();
            twice.insert(k, pairs[k].clone());
            let mut turned = pairs.to_vec();
            turned.swap(0, k);
            v.extend([less, twice, turned, pairs[..k].to_vec()]);
            let other = match &pairs[k] {
                Av::Name(id, s) => vec![Av::Name(*id, format!("{s}x")), Av::Name(id % 5 + 1, s.clone()), Av::Name(*id, s.to_uppercase())],
                Av::Flags(f) => vec![Av::Flags(f ^ 1), Av::Flags(f ^ 4)],
                Av::Time(t) => vec![Av::Time(t ^ 1), Av::Time(t ^ 1 << 40)],
                Av::Chan(c) => bytes(c).into_iter().step_by(9).map(Av::Chan).collect(),
                Av::Host { size, z4, custom, machine } => bytes(custom).into_iter().step_by(9).map(|custom| Av::Host { size: *size, z4: *z4, custom, machine: *machine }).collect(),
                Av::Eol => vec![],
            };
            for a in other {
                let mut l = pairs.to_vec();
                l[k] = a;
                v.push(l);
            }
        }
        for l in v.iter_mut() {
            if !l.is_empty() {
                l.push(Av::Eol);
            }
        }
        v
    }
    let mut v = vec![m.clone()];
    match m {
        Msg::Neg(n) => {
            v.extend((0..32).map(|b| Msg::Neg(Neg { flags: n.flags ^ 1 << b, ..n.clone() })));
            v.extend(names(&n.domain).into_iter().map(|domain| Msg::Neg(Neg { domain, ..n.clone() })));
            v.extend(names(&n.ws).into_iter().map(|ws| Msg::Neg(Neg { ws, ..n.clone() })));
            v.extend(vers(&n.ver).into_iter().map(|ver| Msg::Neg(Neg { ver, ..n.clone() })));
            v.push(Msg::Neg(Neg { domain: n.ws.clone(), ws: n.domain.clone(), ..n.clone() }));
        }
        Msg::Chal(c) => {
            v.extend((0..32).map(|b| Msg::Chal(Chal { flags: c.flags ^ 1 << b, ..c.clone() })));
            v.extend(names(&c.name).into_iter().map(|name| Msg::Chal(Chal { name, ..c.clone() })));
            v.extend(vers(&c.ver).into_iter().map(|ver| Msg::Chal(Chal { ver, ..c.clone() })));
            v.extend(bytes(&c.sc).into_iter().map(|sc| Msg::Chal(Chal { sc, ..c.clone() })));
            v.extend(lists(&c.infos).into_iter().map(|infos| Msg::Chal(Chal { infos, ..c.clone() })));
        }
        Msg::Auth(a) => {
            v.extend((0..32).map(|b| Msg::Auth(Auth { flags: a.flags ^ 1 << b, ..a.clone() })));
            v.extend(names(&a.domain).into_iter().map(|domain| Msg::Auth(Auth { domain, ..a.clone() })));
            v.extend(names(&a.user).into_iter().map(|user| Msg::Auth(Auth { user, ..a.clone() })));
            v.extend(names(&a.ws).into_iter().map(|ws| Msg::Auth(Auth { ws, ..a.clone() })));
            v.extend(vers(&a.ver).into_iter().map(|ver| Msg::Auth(Auth { ver, ..a.clone() })));
            v.extend(bytes(&a.mic).into_iter().map(|mic| Msg::Auth(Auth { mic, ..a.clone() })));
            v.push(Msg::Auth(Auth { key: None, ..a.clone() }));
            v.extend(bytes(&a.key.unwrap_or([0; 16])).into_iter().map(|key| Msg::Auth(Auth { key: Some(key), ..a.clone() })));
            v.push(Msg::Auth(Auth { lm: None, ..a.clone() }));
            v.push(Msg::Auth(Auth { nt: None, ..a.clone() }));
            let with_lm = |lm| Msg::Auth(Auth { lm: Some(lm), ..a.clone() });
            let with_nt = |nt| Msg::Auth(Auth { nt: Some(nt), ..a.clone() });
            let old = a.lm.as_ref().map_or([0; 24], |l| *l.bytes());
            v.extend(bytes(&old).into_iter().flat_map(|b| [with_lm(Lm::V1(b)), with_lm(Lm::V2(b))]));
            v.extend([with_lm(Lm::V1(old)), with_lm(Lm::V2(old))]);
            match a.nt.clone() {
                Some(Nt::V1(b)) => v.extend(bytes(&b).into_iter().map(|b| with_nt(Nt::V1(b)))),
                Some(Nt::V2(b)) => {
                    v.extend(lists(&b.infos).into_iter().map(|infos| with_nt(Nt::V2(Blob { infos, ..b.clone() }))));
                    v.push(with_nt(Nt::V2R([0; 16], b)));
                }
                Some(Nt::V2R(p, b)) => {
                    v.extend(bytes(&p).into_iter().map(|p| with_nt(Nt::V2R(p, b.clone()))));
                    v.extend(bytes(&b.cc).into_iter().map(|cc| with_nt(Nt::V2R(p, Blob { cc, ..b.clone() }))));
                    v.extend((0..64).map(|k| with_nt(Nt::V2R(p, Blob { time: b.time ^ 1 << k, ..b.clone() }))));
                    v.extend(lists(&b.infos).into_iter().map(|infos| with_nt(Nt::V2R(p, Blob { infos, ..b.clone() }))));
                    v.push(with_nt(Nt::V2(b)));
                }
                None => {}
            }
        }
    }
    v
}

enum Real {
    N(Negotiate),
    C(Challenge),
    A(Authenticate),
}
fn real(m: &Msg) -> Real {
    match m {
        Msg::Neg(n) => Real::N(neg_r(n)),
        Msg::Chal(c) => Real::C(chal_r(c)),
        Msg::Auth(a) => Real::A(auth_r(a)),
    }
}

fn compare(a: &Msg, b: &Msg, o: &mut Obs) -> Res {
    let same = a == b;
    let judge = |eq: bool, ne: bool, cl: bool| {
        if eq != same || ne == same {
            return Err(format!("they compare as {}", if eq { "equal" } else { "different" }));
        }
        if !cl {
            return Err("the copy of the first differs from it".into());
        }
        Ok(())
    };
    o.steps(1);
    o.outcome(if same { "equal" } else { "different" });
    o.state(&(encode(a), encode(b)));
    match (real(a), real(b)) {
        (Real::N(x), Real::N(y)) => judge(x == y, x != y, x.clone() == x && neg_m(&x.clone()) == neg_m(&x)),
        (Real::C(x), Real::C(y)) => judge(x == y, x != y, x.clone() == x && chal_m(&x.clone()) == chal_m(&x)),
        (Real::A(x), Real::A(y)) => judge(x == y, x != y, x.clone() == x && auth_m(&x.clone()) == auth_m(&x)),
        _ => unreachable!(),
    }
}

/// The types that hold a text tell texts apart exactly when they are different.
fn texts_compared((a, b): &(String, String), o: &mut Obs) -> Res {
    o.steps(1);
    o.state(&(a, b));
    o.outcome(if a == b { "equal" } else { "different" });
    let mut m = [Authenticate::default(), Authenticate::default()];
    for (m, s) in m.iter_mut().zip([a, b]) {
        m.user = Some(s.as_str().into());
    }
    let mut n = [Negotiate::default(), Negotiate::default()];
    for (n, s) in n.iter_mut().zip([a, b]) {
        n.set_domain_name(Some(s.clone()));
    }
    let av = [av_r(&Av::Name(2, a.clone())), av_r(&Av::Name(2, b.clone()))];
    let is = [
        ("names", m[0].user == m[1].user, m[0].user != m[1].user),
        ("pairs of target information", av[0] == av[1], av[0] != av[1]),
        ("AUTHENTICATE messages", m[0] == m[1], m[0] != m[1]),
        ("NEGOTIATE messages", n[0] == n[1], n[0] != n[1]),
    ];
    for (what, eq, ne) in is {
        if eq != (a == b) || ne == (a == b) {
            return Err(format!("as {what} they compare as {}", if eq { "equal" } else { "different" }));
        }
    }
    Ok(())
}

pub fn c31(deep: bool) -> Vec<Space> {
    let mut out = vec![];
    {
        let bases: &'static [u8] = if deep { &[0, 1, 0x0f, 0x10, 0x7f, 0x80, 0xf0, 0xff] } else { &[0, 0x0f, 0xff] };
        let segs = Segs::new(TYPES.iter().map(|t| (t.1 * 256 * bases.len()) as u64));
        out.push(Space::of(
            "byte values x each byte x each value",
            segs.len(),
            move |i| {
                let (t, i) = segs.find(i);
                let mut m = Mix(i);
                (t, m.pick(256) as u8, *m.of(bases), m.pick(TYPES[t].1))
            },
            |&(t, v, base, at), o| {
                o.steps(1);
                o.state(&(t, v, base, at));
                TYPES[t].2(&vec![base; TYPES[t].1], at, v).map_err(|e| format!("{}: {e}", TYPES[t].0))
            },
        ));
    }
    {
        let reads = if deep { 4 } else { 3 };
        let a = [Fault::Short(1), Fault::Short(3), Fault::Short(7), Fault::Errno(libc::EINTR), Fault::Zero, Fault::Errno(libc::EIO), Fault::Errno(libc::EAGAIN)];
        let n = seq_count(a.len() as u64, reads) * 2 * TYPES.len() as u64 * 4;
        out.push(
            Space::of(
                &format!("random byte values x the answers to the first {reads} reads of the random source x lasting failure"),
                n,
                move |i| {
                    let mut m = Mix(i);
                    let t = m.pick(TYPES.len());
                    let key = m.pick(4) as u64 * 77 + 5;
                    let lasting = m.flag();
                    let faults: Vec<(u32, Fault)> = seq_at(a.len() as u64, m.0).into_iter().enumerate().map(|(k, f)| (k as u32, a[f])).collect();
                    (t, key, faults, lasting)
                },
                |(t, key, faults, lasting), o| run_drawn(*t, *key, faults, *lasting, o),
            )
            .must_see(&["random", "no value"]),
        );
    }
    out.push(Space::of("every character as text", SCALARS * 3, |i| {
        let c = scalar(i / 3);
        match i % 3 {
            0 => c.to_string(),
            1 => format!("a{c}b"),
            _ => format!("{c}{c}"),
        }
    }, |s, o| {
        o.steps(1);
        o.state(s);
        text_of(s)
    }));
    {
        const P: [&str; 9] = ["", "x", "é", "😀", "\"", "\\", "\n", "\0", "'"];
        let depth = if deep { 6 } else { 5 };
        out.push(Space::of("strings of pieces as text", seq_count(9, depth), |i| seq_at(9, i).into_iter().map(|k| P[k]).collect::<String>(), |s, o| {
            o.steps(1);
            o.state(s);
            text_of(s)
        }));
        out.push(Space::of("text of every length", 3 * 2000, |i| ["x", "é", "😀"][(i % 3) as usize].repeat((i / 3) as usize), |s, o| {
            o.steps(1);
            o.state(s);
            text_of(s)
        }));
    }
    {
        // Texts that are the same only if something of them is passed over
        const L: [&str; 14] = ["a", "A", "b", "x", " ", "\0", ".", "\t", "é", "e\u{301}", "\u{feff}", "\u{a0}", "ß", "ss"];
        let n = seq_count(L.len() as u64, if deep { 3 } else { 2 });
        out.push(
            Space::of(
                "pairs of texts in each type that holds one",
                n * n,
                move |i| {
                    let t = |i: u64| seq_at(L.len() as u64, i).into_iter().map(|k| L[k]).collect::<String>();
                    (t(i / n), t(i % n))
                },
                texts_compared,
            )
            .must_see(&["equal", "different"]),
        );
        // Long texts, one character of which is another one
        let lens = text_lengths(if deep { 300 } else { 130 }, 13);
        let segs = Segs::new(lens.iter().map(|l| 3 * (l.min(&400) + 1) as u64));
        out.push(
            Space::of(
                "pairs of long texts, the same or with one difference, in each type that holds one",
                segs.len(),
                move |i| {
                    let (k, i) = segs.find(i);
                    let (len, unit) = (lens[k], ["x", "é", "😀"][(i % 3) as usize]);
                    let at = (i / 3) as usize;
                    let a = unit.repeat(len);
                    // Every position of the first and the last 200 characters; the last case is no difference
                    let at = match len {
                        0..=400 => at,
                        _ if at < 200 => at,
                        _ => len + at - 400,
                    };
                    let b = if at == len { a.clone() } else { format!("{}{}{}", unit.repeat(at), if unit == "😀" { "😁" } else { "y" }, unit.repeat(len - at - 1)) };
                    (a, b)
                },
                texts_compared,
            )
            .must_see(&["equal", "different"]),
        );
    }
    out.push(Space::of(
        "versions made of numbers",
        256 * 256 * 40,
        |i| {
            let mut m = Mix(i);
            let builds: Vec<u16> = (0..16).flat_map(|b| [1u16 << b, !(1 << b)]).chain([0, 255, 256, 2600, 7601, 17763, 19041, 65535]).collect();
            (m.pick(256) as u8, m.pick(256) as u8, *m.of(&builds))
        },
        |&(a, b, c), o| {
            o.steps(1);
            let v: st::Version = (a, b, c).into();
            o.state(&(a, b, c));
            if ver_m(&v) != (Ver { major: a, minor: b, build: c, rev: 15 }) {
                return Err(format!("it is {v:?}"));
            }
            let bytes: [u8; 8] = http_ntlm::verif::version::encode(&v).0.try_into().map_err(|b| format!("encoded as {b:x?}"))?;
            match st::Version::try_from(bytes) {
                Ok(w) if w == v => Ok(()),
                other => Err(format!("encoded and read again it is {other:?}")),
            }
        },
    ));
    out.push(
        Space::of(
            "versions read from bytes, two of them changed",
            28 * 65536,
            |i| {
                let mut b = ver_bytes(&ver());
                let mut m = Mix(i);
                let (x, y) = (m.pick(256) as u8, m.pick(256) as u8);
                let pairs: Vec<(usize, usize)> = (0..8).flat_map(|p| (p + 1..8).map(move |q| (p, q))).collect();
                let (p, q) = *m.of(&pairs);
                (b[p], b[q]) = (x, y);
                b
            },
            |b, o| {
                o.steps(1);
                o.state(b);
                let ok = b[4..7] == [0, 0, 0] && b[7] == 15;
                let want = Ver { major: b[0], minor: b[1], build: u16::from_le_bytes([b[2], b[3]]), rev: b[7] };
                match st::Version::try_from(*b) {
                    Ok(v) if ok && ver_m(&v) == want => {
                        o.outcome("read");
                        Ok(())
                    }
                    Err(()) if !ok => {
                        o.outcome("refused");
                        Ok(())
                    }
                    other => Err(format!("read as {other:?}")),
                }
            },
        )
        .must_see(&["read", "refused"]),
    );
    // Responses
    {
        let n = (8 + 8 + 16) * 256;
        out.push(Space::of(
            "LM responses from challenges",
            n,
            |i| {
                let mut all = pattern::<32>(0x29);
                all[(i / 256) as usize] = i as u8;
                all
            },
            |all, o| {
                o.steps(2);
                o.state(all);
                let sc: [u8; 8] = all[..8].try_into().unwrap();
                let cc: [u8; 8] = all[8..16].try_into().unwrap();
                let v1 = st::Lmv1Challenge::from_client_challenge(&cc.into());
                let mut want = [0u8; 24];
                want[..8].copy_from_slice(&cc);
                if v1.response[..] != want {
                    return Err(format!("from the client challenge {cc:x?}: {:x?}", &v1.response[..]));
                }
                let v2 = st::Lmv2Challenge::from_server_challenge(&sc.into(), &all[16..], &cc.into());
                let want = server::hmac_md5(&all[16..], &[&sc, &cc]);
                if v2.response[..] != want || v2.challenge_from_client[..] != cc {
                    return Err(format!("from the challenges {sc:x?} and {cc:x?}: {v2:?}, not {want:x?}"));
                }
                match (st::LmChallenge::from(v1.clone()), st::LmChallenge::from(v2.clone())) {
                    (st::LmChallenge::V1(a), st::LmChallenge::V2(b)) if a == v1 && b == v2 => {}
                    other => return Err(format!("converted: {other:?}")),
                }
                let k16: [u8; 16] = all[16..].try_into().unwrap();
                let e: st::EncryptedRandomSessionKey = st::ExportedSessionKey::from(k16).into();
                let k: st::KeyExchangeKey = st::SessionBaseKey::from(k16).into();
                if e[..] != k16 || k[..] != k16 {
                    return Err(format!("the key {k16:x?} becomes {e:?} and {k:?}"));
                }
                Ok(())
            },
        ));
        let lists: Vec<Vec<Av>> = av_letters().into_iter().map(|a| vec![a, Av::Eol]).chain([full_infos(), short_infos(), vec![]]).collect();
        let n = lists.len() as u64 * 3;
        out.push(Space::of(
            "NT responses, converted",
            n,
            move |i| {
                let b = Blob { infos: lists[(i / 3) as usize].clone(), ..blob() };
                match i % 3 {
                    0 => Nt::V1(pattern(i as u8)),
                    1 => Nt::V2(b),
                    _ => Nt::V2R(pattern(i as u8), b),
                }
            },
            |n, o| {
                o.steps(1);
                o.state(&nt_bytes(n));
                let r = nt_r(n);
                if nt_m(&r) != *n || r.clone() != r {
                    return Err(format!("it becomes {r:?}"));
                }
                Ok(())
            },
        ));
    }
    {
        let avs: Vec<Av> = av_letters().into_iter().chain([Av::Eol]).collect();
        let n = avs.len() as u64;
        out.push(Space::of("identifiers of pairs", n, move |i| avs[i as usize].clone(), |a, o| {
            const NAMES: [&str; 11] = [
                "MsvAvEOL", "MsvAvNbComputerName", "MsvAvNbDomainName", "MsvAvDnsComputerName", "MsvAvDnsDomainName", "MsvAvDnsTreeName", "MsvAvFlags", "MsvAvTimestamp", "MsvAvSingleHost",
                "MsvAvTargetName", "MsvAvChannelBindings",
            ];
            o.steps(1);
            o.state(&av_bytes(a));
            let r = av_r(a);
            let id = u16::from_le_bytes([av_bytes(a)[0], av_bytes(a)[1]]);
            if r.get_id() as u16 != id || format!("{:?}", r.get_id()) != NAMES[id as usize] || !format!("{r:?}").starts_with(NAMES[id as usize]) {
                return Err(format!("{r:?} has the identifier {:?}", r.get_id()));
            }
            Ok(())
        }));
    }
    {
        let avs = av_family();
        let n = avs.len() as u64;
        out.push(
            Space::of("two pairs of target information that differ in a part, or not at all", n * n, move |i| (avs[(i / n) as usize].clone(), avs[(i % n) as usize].clone()), |(a, b), o| {
                o.steps(1);
                o.state(&(a, b));
                let (x, y) = (av_r(a), av_r(b));
                o.outcome(if a == b { "equal" } else { "different" });
                if (x == y) != (a == b) || (x != y) == (a == b) {
                    return Err(format!("they compare as {}", if x == y { "equal" } else { "different" }));
                }
                if x.clone() != x || av_m(&x.clone()) != *a {
                    return Err(format!("the copy of the first is {:?}", x.clone()));
                }
                Ok(())
            })
            .must_see(&["equal", "different"]),
        );
    }
    {
        let sets: Vec<Vec<Msg>> = base_msgs().iter().map(|(_, m)| mutants(m)).collect();
        let segs = Segs::new(sets.iter().map(|s| (s.len() * s.len()) as u64));
        out.push(
            Space::of(
                "two messages that differ from a message in one part each",
                segs.len(),
                move |i| {
                    let (k, i) = segs.find(i);
                    let s = &sets[k];
                    (s[i as usize / s.len()].clone(), s[i as usize % s.len()].clone())
                },
                |(a, b), o| compare(a, b, o),
            )
            .must_see(&["equal", "different"]),
        );
    }
    out.push(Space::of("session keys of two messages", 12 * 17 * 17, |i| {
        let mut m = Mix(i);
        let key = |k: usize| -> Option<[u8; 16]> {
            (k > 0).then(|| {
                let mut b = [7u8; 16];
                b[k - 1] = 8;
                b
            })
        };
        let (a, b) = (key(m.pick(17)), key(m.pick(17)));
        (m.pick(12), a, b)
    }, |(k, a, b), o| {
        let Msg::Auth(m) = &base_msgs()[*k].1 else { return Ok(()) };
        o.steps(1);
        o.state(&(k, a, b));
        let of = |key: &Option<[u8; 16]>| {
            let mut r = auth_r(m);
            r.exported_session_key = key.map(|k| k.into());
            r
        };
        let (x, y) = (of(a), of(b));
        if (x == y) != (a == b) || x.clone() != x || x.clone().exported_session_key.as_deref() != a.as_ref().map(|k| &k[..]) {
            return Err(format!("with the session keys {a:x?} and {b:x?} they compare as {}", if x == y { "equal" } else { "different" }));
        }
        Ok(())
    }));
    // Comparison and copies of messages, and their text
    let fam = std::sync::Arc::new(family());
    for k in KINDS {
        let of: Vec<Msg> = fam.iter().filter(|m| m.kind() == k).cloned().collect();
        let n = of.len() as u64;
        let of2 = of.clone();
        out.push(
            Space::of(&format!("pairs of messages, {k:?}"), n * n, move |i| (of[(i / n) as usize].clone(), of[(i % n) as usize].clone()), |(a, b), o| compare(a, b, o))
                .must_see(&["equal", "different"]),
        );
        out.push(Space::of(&format!("messages printed, {k:?}"), n, move |i| of2[i as usize].clone(), |m, o| {
            o.steps(1);
            o.state(&encode(m));
            let (text, parts): (String, Vec<String>) = match (real(m), m) {
                (Real::N(r), Msg::Neg(n)) => (format!("{r:?}"), [&n.domain, &n.ws].into_iter().flatten().map(|s| format!("{s:?}")).collect()),
                (Real::C(r), Msg::Chal(c)) => (format!("{r:?}"), c.name.iter().map(|s| format!("{s:?}")).chain([hex(&c.sc)]).collect()),
                (Real::A(r), Msg::Auth(a)) => (
                    format!("{r:?}"),
                    [&a.domain, &a.user, &a.ws].into_iter().flatten().map(|s| format!("{s:?}")).chain([hex(&a.mic)]).collect(),
                ),
                _ => unreachable!(),
            };
            match parts.iter().find(|p| !text.contains(*p)) {
                Some(p) => Err(format!("{p} is missing in {text}")),
                None => Ok(()),
            }
        }));
    }
    out
}
