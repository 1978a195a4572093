//! Flags words, file times, builders and fixed-size structures: C08, C09, C10, C25.

use super::decode::show;
use crate::engine::*;
use crate::env;
use crate::gen::*;
use crate::real;
use crate::spec::bit::*;
use crate::spec::*;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::structures::FileTime;
use http_ntlm::messages::{flags as rf, Authenticate, Challenge, Flags, Negotiate};
use http_ntlm::verif;
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ---------------------------------------------------------------- C08

/// The bits of MS-NLMP section 2.2.2.5: name in the code, position, what the code says.
fn table() -> Vec<(&'static str, u32, u32)> {
    vec![
        ("NTLMSSP_NEGOTIATE_56", 31, rf::NTLMSSP_NEGOTIATE_56),
        ("NTLMSSP_NEGOTIATE_KEY_EXCH", 30, rf::NTLMSSP_NEGOTIATE_KEY_EXCH),
        ("NTLMSSP_NEGOTIATE_128", 29, rf::NTLMSSP_NEGOTIATE_128),
        ("R1", 28, rf::R1),
        ("R2", 27, rf::R2),
        ("R3", 26, rf::R3),
        ("NTLMSSP_NEGOTIATE_VERSION", 25, rf::NTLMSSP_NEGOTIATE_VERSION),
        ("R4", 24, rf::R4),
        ("NTLMSSP_NEGOTIATE_TARGET_INFO", 23, rf::NTLMSSP_NEGOTIATE_TARGET_INFO),
        ("NTLMSSP_REQUEST_NON_NT_SESSION_KEY", 22, rf::NTLMSSP_REQUEST_NON_NT_SESSION_KEY),
        ("R5", 21, rf::R5),
        ("NTLMSSP_NEGOTIATE_IDENTIFY", 20, rf::NTLMSSP_NEGOTIATE_IDENTIFY),
        ("NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY", 19, rf::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY),
        ("R6", 18, rf::R6),
        ("NTLMSSP_TARGET_TYPE_SERVER", 17, rf::NTLMSSP_TARGET_TYPE_SERVER),
        ("NTLMSSP_TARGET_TYPE_DOMAIN", 16, rf::NTLMSSP_TARGET_TYPE_DOMAIN),
        ("NTLMSSP_NEGOTIATE_ALWAYS_SIGN", 15, rf::NTLMSSP_NEGOTIATE_ALWAYS_SIGN),
        ("R7", 14, rf::R7),
        ("NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED", 13, rf::NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED),
        ("NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED", 12, rf::NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED),
        ("NTLMSSP_ANONYMOUS", 11, rf::NTLMSSP_ANONYMOUS),
        ("R8", 10, rf::R8),
        ("NTLMSSP_NEGOTIATE_NTLM", 9, rf::NTLMSSP_NEGOTIATE_NTLM),
        ("R9", 8, rf::R9),
        ("NTLMSSP_NEGOTIATE_LM_KEY", 7, rf::NTLMSSP_NEGOTIATE_LM_KEY),
        ("NTLMSSP_NEGOTIATE_DATAGRAM", 6, rf::NTLMSSP_NEGOTIATE_DATAGRAM),
        ("NTLMSSP_NEGOTIATE_SEAL", 5, rf::NTLMSSP_NEGOTIATE_SEAL),
        ("NTLMSSP_NEGOTIATE_SIGN", 4, rf::NTLMSSP_NEGOTIATE_SIGN),
        ("R10", 3, rf::R10),
        ("NTLMSSP_REQUEST_TARGET", 2, rf::NTLMSSP_REQUEST_TARGET),
        ("NTLM_NEGOTIATE_OEM", 1, rf::NTLM_NEGOTIATE_OEM),
        ("NTLMSSP_NEGOTIATE_UNICODE", 0, rf::NTLMSSP_NEGOTIATE_UNICODE),
    ]
}

fn word_codec(w: u32) -> Res {
    let (b, n) = verif::flags::encode(&Flags(w));
    if b != w.to_le_bytes() || n != 4 {
        return Err(format!("{w:#010x} is encoded as {b:x?} ({n} bytes reported)"));
    }
    match verif::flags::decode(&b) {
        Some((g, 0)) if g.0 == w => Ok(()),
        g => Err(format!("{w:#010x} comes back as {:x?}", g.map(|g| (g.0 .0, g.1)))),
    }
}

fn word_ops(w: u32) -> Res {
    for b in 0..32 {
        let f = Flags(w);
        if f.has_flag(b) != has(w, b) {
            return Err(format!("has_flag({b}) of {w:#010x} is {}", f.has_flag(b)));
        }
        let mut s = Flags(w);
        s.set_flag(b);
        let mut c = Flags(w);
        c.clear_flag(b);
        if s.0 != w | 1 << b || c.0 != w & !(1 << b) {
            return Err(format!("bit {b} of {w:#010x}: set gives {:#010x}, clear gives {:#010x}", s.0, c.0));
        }
    }
    Ok(())
}

fn word_text(w: u32) -> Res {
    let text = format!("{:?}", Flags(w));
    let mut named = 0u32;
    for part in text.split('|').map(|p| p.trim()).filter(|p| !p.is_empty()) {
        let Some((_, b, _)) = table().into_iter().find(|t| t.0 == part) else {
            return Err(format!("{w:#010x} is written {text:?}: no flag is called {part:?}"));
        };
        if has(named, b) {
            return Err(format!("{w:#010x} is written {text:?}: {part} appears twice"));
        }
        named |= 1 << b;
    }
    if named != w {
        return Err(format!("{w:#010x} is written {text:?}, which is {named:#010x}"));
    }
    Ok(())
}

/// Words with up to `n` bits different from the others.
pub fn sparse_words(n: u32) -> Vec<u32> {
    let mut v = vec![0u32];
    let mut last = v.clone();
    for _ in 0..n {
        let mut next = vec![];
        for w in &last {
            let from = if *w == 0 { 0 } else { 32 - w.leading_zeros() };
            for b in from..32 {
                next.push(w | 1 << b);
            }
        }
        v.extend(&next);
        last = next;
    }
    let inverted: Vec<u32> = v.iter().map(|w| !w).collect();
    v.extend(inverted);
    v.sort();
    v.dedup();
    v
}

fn half_words(i: u64) -> u32 {
    let w = i as u32 & 0xffff;
    match i >> 16 {
        0 => w,
        1 => w | 0xffff_0000,
        2 => w | 0x5a5a_0000,
        3 => w << 16,
        4 => w << 16 | 0xffff,
        5 => w << 16 | 0xa5a5,
        6 => w.wrapping_mul(0x10001),
        _ => w | (!w & 0xffff) << 16,
    }
}

pub fn c08(deep: bool) -> Vec<Space> {
    let mut out = vec![];
    let t = table();
    out.push(Space::of("positions of the flags", 32, move |i| t[i as usize], |(n, want, got), o| {
        o.steps(1);
        o.state(n);
        if want == got {
            Ok(())
        } else {
            Err(format!("{n} is bit {got}, MS-NLMP says {want}"))
        }
    }));
    let whole = |w: &u32, o: &mut Obs| -> Res {
        o.steps(100);
        o.state_hash(*w as u64);
        word_codec(*w)?;
        word_ops(*w)?;
        word_text(*w)
    };
    let mut words = sparse_words(if deep { 6 } else { 4 });
    words.extend(super::hs::near(&super::hs::flag_bases(), if deep { 4 } else { 3 }));
    words.sort();
    words.dedup();
    let words = Arc::new(words);
    {
        let words = words.clone();
        out.push(Space::of("words with few bits set, clear or unlike usual words", words.len() as u64, move |i| words[i as usize], whole));
    }
    out.push(Space::of("words with every lower or upper half", 8 << 16, half_words, whole));
    // Blocks of words, encoded and decoded only
    let per = 1u64 << 14;
    let blocks = 1u64 << 18;
    out.push(Space::new(
        "all 2^32 words",
        blocks,
        |i| format!("block {i} of 2^14 words"),
        move |i, o| {
            o.steps(per);
            o.traces += per - 1;
            for k in 0..per {
                word_codec_fast((i << 14 | k) as u32)?;
            }
            Ok(())
        },
    ));
    // In messages
    let mut words = sparse_words(if deep { 4 } else { 3 });
    words.extend(super::hs::near(&super::hs::flag_bases(), if deep { 3 } else { 2 }));
    words.sort();
    words.dedup();
    let words = Arc::new(words);
    out.push(Space::of(
        "words in messages",
        words.len() as u64 * 3,
        move |i| (KINDS[(i % 3) as usize], words[(i / 3) as usize]),
        |(k, w), o| {
            let v = has(*w, VERSION).then(ver);
            let m = match k {
                Kind::Neg => Msg::Neg(Neg { flags: *w, domain: some("D"), ver: v, ..Default::default() }),
                Kind::Chal => Msg::Chal(Chal { flags: *w, name: some("N"), infos: short_infos(), ver: v, ..Default::default() }),
                Kind::Auth => Msg::Auth(Auth { flags: *w, user: some("U"), ver: v, ..Default::default() }),
            };
            let at = match k {
                Kind::Neg => 12,
                Kind::Chal => 20,
                Kind::Auth => 60,
            };
            let (b, _) = real::enc(&m);
            o.steps(2);
            o.state(&(k, w));
            if u32_at(&b, at) != *w {
                return Err(format!("{k:?} with flags {w:#010x} sends {:#010x}", u32_at(&b, at)));
            }
            match real::dec(*k, &b) {
                Some(g) if same(&g, &m) => Ok(()),
                Some(g) => Err(format!("{k:?} with flags {w:#010x} comes back as {g:x?}")),
                None => Err(format!("{k:?} with flags {w:#010x} does not decode")),
            }
        },
    ));
    // Sequences of operations: the last one on each bit counts
    let n = if deep { 4 } else { 3 };
    out.push(Space::of(
        &format!("{n} operations in a row"),
        64u64.pow(n) * 3,
        move |i| {
            let mut m = Mix(i);
            let w = *m.of(&[0u32, u32::MAX, 0x5aa5_c33c]);
            (w, (0..n).map(|_| (m.pick(32) as u32, m.flag())).collect::<Vec<_>>())
        },
        |(w, ops), o| {
            let (mut f, mut want) = (Flags(*w), *w);
            for (b, set) in ops {
                if *set {
                    f.set_flag(*b);
                    want |= 1 << b;
                } else {
                    f.clear_flag(*b);
                    want &= !(1 << b);
                }
            }
            o.steps(ops.len() as u64);
            o.state_hash(want as u64);
            if f.0 == want {
                Ok(())
            } else {
                Err(format!("gives {:#010x}, expected {want:#010x}", f.0))
            }
        },
    ));
    out
}

fn word_codec_fast(w: u32) -> Res {
    match verif::flags::decode(&w.to_le_bytes()) {
        Some((g, 0)) if g.0 == w => {}
        g => return Err(format!("{w:#010x} is decoded as {:x?}", g.map(|g| (g.0 .0, g.1)))),
    }
    let (b, _) = verif::flags::encode(&Flags(w));
    if b != w.to_le_bytes() {
        return Err(format!("{w:#010x} is encoded as {b:x?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

const EPOCH_DIFF: i128 = 11_644_473_600;
const TICKS: i128 = 10_000_000;

/// Ticks since 1601 of a time since 1970 (seconds and nanoseconds), if they fit.
fn ticks_of(secs: i128, nanos: i128) -> Option<u64> {
    u64::try_from((secs + EPOCH_DIFF) * TICKS + nanos.div_euclid(100)).ok()
}

fn secs_alphabet() -> Vec<u64> {
    let max = (u64::MAX / 10_000_000) - 11_644_473_600;
    let mut v: Vec<u64> = vec![59, 60, 86_399, 86_400, 1_000_000_000, 1_700_000_000, 2_000_000_000, 4_102_444_800, 253_402_300_799];
    for k in 0..63 {
        for d in [-1i64, 0, 1] {
            v.push(((1u64 << k) as i64).wrapping_add(d) as u64);
        }
    }
    for d in 0..4 {
        v.push(max - d);
        v.push(max + d);
    }
    // Where a word of the tick count overflows
    for k in 1..=2000u64 {
        let t = (k << 32) as i128;
        let s = t / TICKS - EPOCH_DIFF;
        if s >= 0 {
            v.push(s as u64);
        }
    }
    for k in [0x7fff_ffffu64, 0x8000_0000, 0xffff_ffff, 27_111_902, 27_111_903] {
        let s = ((k as i128) << 32) / TICKS - EPOCH_DIFF;
        if s >= 0 {
            v.push(s as u64);
            v.push(s as u64 + 1);
        }
    }
    v.retain(|s| *s <= i64::MAX as u64);
    v.sort();
    v.dedup();
    v
}
const NANOS: [u64; 16] = [0, 1, 50, 99, 100, 101, 199, 200, 1000, 123_456_789, 499_999_999, 500_000_000, 955_161_500, 955_161_599, 999_999_900, 999_999_999];

fn from_clock(secs: u64, nanos: u64) -> Res {
    let Some(t) = UNIX_EPOCH.checked_add(Duration::new(secs, nanos as u32)) else {
        return Ok(());
    };
    let want = ticks_of(secs as i128, nanos as i128);
    match (FileTime::try_from(t), want) {
        (Ok(f), Some(w)) => {
            if real::ft_m(&f) != w || f.as_u64() != w {
                return Err(format!("is {:#x} ({:#x}), expected {w:#x}", real::ft_m(&f), f.as_u64()));
            }
            let back = f.to_system_time();
            let same = UNIX_EPOCH + Duration::new(secs, (nanos / 100 * 100) as u32);
            if back != Some(same) {
                return Err(format!("comes back as {back:?}, expected {same:?}"));
            }
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(f), None) => Err(format!("does not fit but is {:#x}", real::ft_m(&f))),
        (Err(_), Some(_)) => Err("is refused".into()),
    }
}

fn to_clock(ticks: u64) -> Res {
    let f = real::ft_r(ticks);
    if f.as_u64() != ticks {
        return Err(format!("{ticks:#x}.as_u64() is {:#x}", f.as_u64()));
    }
    let since = ticks as i128 - EPOCH_DIFF * TICKS;
    let d = Duration::new((since.unsigned_abs() / TICKS as u128) as u64, (since.unsigned_abs() % TICKS as u128) as u32 * 100);
    let want = if since >= 0 { UNIX_EPOCH + d } else { UNIX_EPOCH - d };
    let got = f.to_system_time();
    if got != Some(want) {
        return Err(format!("{ticks:#x} denotes {got:?}, expected {want:?}"));
    }
    if since >= 0 {
        match FileTime::try_from(want) {
            Ok(g) if real::ft_m(&g) == ticks => {}
            g => return Err(format!("{ticks:#x} comes back as {g:?}")),
        }
    }
    let (b, n) = verif::filetime::encode(&f);
    if b != ticks.to_le_bytes() || n != 8 {
        return Err(format!("{ticks:#x} is encoded as {b:x?} ({n} bytes reported)"));
    }
    match verif::filetime::decode(&b) {
        Some((g, 0)) if g == f => Ok(()),
        g => Err(format!("{ticks:#x} decodes as {g:?}")),
    }
}

fn ticks_alphabet() -> Vec<u64> {
    let mut v = vec![];
    for k in 0..64 {
        for d in [-2i64, -1, 0, 1, 2] {
            v.push((1u64 << k).wrapping_add(d as u64));
        }
    }
    let unix = (EPOCH_DIFF * TICKS) as u64;
    for d in 0..1000u64 {
        v.push(unix + d);
        v.push(unix - d);
        v.push(u64::MAX - d);
        v.push(d);
        v.push(unix + d * 10_000_000);
        v.push(unix + d * 10_000_000 - 1);
    }
    for k in 0..64 {
        v.push(unix ^ (1u64 << k));
        v.push((unix + 0x0033_4455_6677_8899) ^ (1u64 << k));
        v.push(u64::MAX ^ (1u64 << k));
    }
    v.sort();
    v.dedup();
    v
}

pub fn c09(deep: bool) -> Vec<Space> {
    let mut out = vec![];
    let secs = Arc::new(secs_alphabet());
    {
        let secs = secs.clone();
        out.push(Space::of(
            "clock times",
            (secs.len() * NANOS.len()) as u64,
            move |i| {
                let mut m = Mix(i);
                (*m.of(&secs), *m.of(&NANOS))
            },
            |(s, n), o| {
                o.steps(2);
                o.state(&(s, n));
                from_clock(*s, *n)
            },
        ));
    }
    out.push(Space::of("every day from 1970 to 3000", 376_000 * 3, |i| (i / 3 * 86_400 + [0, 43_200, 86_399][(i % 3) as usize], 0), |(s, n), o| {
        o.steps(2);
        o.state(s);
        from_clock(*s, *n)
    }));
    let span: u64 = if deep { 10_000_000 } else { 500_000 };
    for (name, base) in [("every tick of a stretch of 2023", 1_700_000_000u64), ("every tick around a carry of the low word", 1_700_000_156)] {
        out.push(Space::new(
            name,
            span / 100,
            move |i| format!("100 ticks from {base} s and {i} * 10 us"),
            move |i, o| {
                o.steps(200);
                o.traces += 99;
                for k in 0..100 {
                    let t = i * 100 + k;
                    o.state_hash(t);
                    from_clock(base + t / 10_000_000, t % 10_000_000 * 100 + (t * 7) % 100)?;
                }
                Ok(())
            },
        ));
    }
    let ticks = Arc::new(ticks_alphabet());
    {
        let ticks = ticks.clone();
        out.push(Space::of("file times", ticks.len() as u64, move |i| ticks[i as usize], |t, o| {
            o.steps(4);
            o.state(t);
            to_clock(*t)
        }));
    }
    {
        let n = if deep { 1u64 << 22 } else { 1 << 20 };
        out.push(Space::of("file times spread over the whole range", n, move |i| i.wrapping_mul(u64::MAX / n), |t, o| {
            o.steps(4);
            o.state(t);
            to_clock(*t)
        }));
    }
    // Order
    {
        let secs: Vec<u64> = secs.iter().copied().filter(|s| ticks_of(*s as i128, 0).is_some()).step_by(if deep { 1 } else { 3 }).collect();
        let n = secs.len() * 4;
        let at = move |k: usize| (secs[k / 4], [0u64, 99, 100, 999_999_999][k % 4]);
        out.push(Space::of(
            "pairs of clock times",
            (n * n) as u64,
            move |i| {
                let mut m = Mix(i);
                (at(m.pick(n)), at(m.pick(n)))
            },
            |(a, b), o| {
                let f = |t: &(u64, u64)| UNIX_EPOCH.checked_add(Duration::new(t.0, t.1 as u32)).and_then(|t| FileTime::try_from(t).ok());
                o.steps(2);
                match (f(a), f(b)) {
                    (Some(x), Some(y)) if (a <= b) && x.as_u64() > y.as_u64() => Err(format!("{x:?} is after {y:?}")),
                    _ => Ok(()),
                }
            },
        ));
    }
    // Before 1970: refused, or exact
    {
        let mut secs: Vec<i128> = vec![];
        for k in 0..62 {
            secs.push(-(1i128 << k));
            secs.push(-(1i128 << k) - 1);
        }
        for d in -3..3 {
            secs.push(-EPOCH_DIFF + d);
        }
        out.push(Space::of(
            "clock times before 1970",
            (secs.len() * NANOS.len()) as u64,
            move |i| {
                let mut m = Mix(i);
                (*m.of(&secs), *m.of(&NANOS) as i128)
            },
            |(s, n), o| {
                o.steps(1);
                o.state(&(s, n));
                let Some(t) = UNIX_EPOCH.checked_sub(Duration::from_secs((-s) as u64)).and_then(|t| t.checked_add(Duration::from_nanos(*n as u64))) else {
                    return Ok(());
                };
                match (FileTime::try_from(t), ticks_of(*s, *n)) {
                    (Err(_), _) => Ok(()),
                    (Ok(f), Some(w)) if real::ft_m(&f) == w => Ok(()),
                    (Ok(f), w) => Err(format!("is {:#x}, expected {w:x?} or a refusal", real::ft_m(&f))),
                }
            },
        ));
    }
    // The current time
    {
        let secs = secs.clone();
        out.push(
            Space::of(
                "clock readings",
                (secs.len() * NANOS.len()) as u64,
                move |i| {
                    let mut m = Mix(i);
                    (*m.of(&secs) as i64, *m.of(&NANOS) as i64)
                },
                |(s, n), o| {
                    o.steps(1);
                    o.state(&(s, n));
                    let got = env::with_clock(*s, *n, || guard(FileTime::now));
                    match (got, ticks_of(*s as i128, *n as i128)) {
                        (Ok(f), Some(w)) if real::ft_m(&f) == w => {
                            o.outcome("read");
                            Ok(())
                        }
                        (Err(_), None) => {
                            o.outcome("refused");
                            Ok(())
                        }
                        (g, w) => Err(format!("the current time is {g:x?}, expected {w:x?}")),
                    }
                },
            )
            .must_see(&["read", "refused"]),
        );
    }
    let _ = SystemTime::now;
    out
}

// ---------------------------------------------------------------- C10

const WORDS: [u32; 5] = [1, 0, u32::MAX, 0xa208_8235, 0x5aa5_c33c];

fn put(flags: u32, b: u32, on: bool) -> u32 {
    flags & !(1 << b) | (on as u32) << b
}

pub fn c10(deep: bool) -> Vec<Space> {
    let mut out = vec![];
    let texts: Vec<Option<String>> = vec![None, some(""), some("A"), some("é😀")];
    // NEGOTIATE
    {
        let depth = if deep { 6 } else { 5 };
        let n = seq_count(8, depth);
        let texts = texts.clone();
        out.push(Space::of(
            &format!("NEGOTIATE: up to {depth} calls"),
            n * (WORDS.len() * 2) as u64,
            move |i| {
                let mut m = Mix(i);
                let w = *m.of(&WORDS);
                let v = m.flag();
                let ops: Vec<(bool, Option<String>)> = seq_at(8, m.0).iter().map(|o| (*o >= 4, texts[o % 4].clone())).collect();
                (w, v, ops)
            },
            |(w, v, ops), o| {
                let mut r = Negotiate::default();
                r.negotiate_flags = Flags(*w);
                r.version = v.then(|| real::ver_r(&ver()));
                let mut m = Neg { flags: *w, domain: None, ws: None, ver: v.then(ver) };
                for (is_ws, t) in ops {
                    if *is_ws {
                        r.set_workstation(t.clone());
                        m.ws = t.clone();
                        m.flags = put(m.flags, WS_SUPPLIED, t.is_some());
                    } else {
                        r.set_domain_name(t.clone());
                        m.domain = t.clone();
                        m.flags = put(m.flags, DOMAIN_SUPPLIED, t.is_some());
                    }
                    o.steps(1);
                    o.state(&m);
                    let g = real::neg_m(&r);
                    if g != m {
                        return Err(format!("is {g:x?}, expected {m:x?}"));
                    }
                }
                Ok(())
            },
        ));
    }
    // CHALLENGE
    {
        let letters: Vec<Av> = av_letters().into_iter().take(10).collect();
        let k = 4 + letters.len() as u64;
        let depth = if deep { 5 } else { 4 };
        let n = seq_count(k, depth);
        let starts: Vec<Vec<Av>> = vec![vec![], vec![Av::Eol], vec![name(1, "P"), Av::Eol], vec![Av::Time(5), name(1, "Q"), Av::Eol]];
        #[derive(Debug)]
        enum Op {
            Name(Option<String>),
            Add(Av),
        }
        let texts = texts.clone();
        out.push(Space::of(
            &format!("CHALLENGE: up to {depth} calls"),
            n * (WORDS.len() * starts.len()) as u64,
            move |i| {
                let mut m = Mix(i);
                let w = *m.of(&WORDS);
                let s = m.of(&starts).clone();
                let ops: Vec<Op> = seq_at(k, m.0)
                    .iter()
                    .map(|o| if *o < 4 { Op::Name(texts[*o].clone()) } else { Op::Add(letters[o - 4].clone()) })
                    .collect();
                (w, s, ops)
            },
            |(w, start, ops), o| {
                // A list that is already there was received
                let v = has(*w, VERSION).then(ver);
                let mut m = Chal { flags: *w, name: None, sc: pattern(3), infos: start.clone(), ver: v };
                let mut r = if start.is_empty() {
                    real::chal_r(&m)
                } else {
                    real::dec_chal_real(&encode(&Msg::Chal(m.clone()))).ok_or("the start does not decode")?
                };
                for op in ops {
                    match op {
                        Op::Name(t) => {
                            r.set_target_name(t.as_deref());
                            m.name = t.clone();
                            m.flags = put(m.flags, REQUEST_TARGET, t.is_some());
                        }
                        Op::Add(a) => {
                            real::add_info(&mut r, a);
                            if m.infos.is_empty() {
                                m.infos.push(Av::Eol);
                            }
                            m.infos.insert(m.infos.len() - 1, a.clone());
                            m.flags = put(m.flags, TARGET_INFO, true);
                        }
                    }
                    o.steps(1);
                    o.state(&m);
                    let g = real::chal_m(&r);
                    if g != m {
                        return Err(format!("is {g:x?}, expected {m:x?}"));
                    }
                }
                Ok(())
            },
        ));
    }
    // Long sequences of additions
    {
        let letters: Vec<Av> = av_letters();
        let k = letters.len() as u64;
        out.push(Space::of(
            "CHALLENGE: many additions",
            k * k * 40,
            move |i| {
                let mut m = Mix(i);
                let n = m.pick(40) + 1;
                let (a, b) = (m.pick(k as usize), m.pick(k as usize));
                (0..n).map(|j| letters[(a + b * j) % letters.len()].clone()).collect::<Vec<_>>()
            },
            |l, o| {
                let mut r = Challenge::default();
                for a in l {
                    real::add_info(&mut r, a);
                }
                let mut want = l.clone();
                want.push(Av::Eol);
                o.steps(l.len() as u64);
                o.state(l);
                let g = real::chal_m(&r);
                if g.infos != want || !has(g.flags, TARGET_INFO) {
                    return Err(format!("has {:?} and flags {:#x}", g.infos, g.flags));
                }
                Ok(())
            },
        ));
    }
    // Additions to a list of any length
    {
        let letters: Vec<Av> = av_letters();
        let lens = text_lengths(if deep { 300 } else { 140 }, 11);
        out.push(Space::of(
            "CHALLENGE: additions to a list by its length",
            (lens.len() * WORDS.len() * 3 * 14) as u64,
            move |i| {
                let mut m = Mix(i);
                let w = *m.of(&WORDS);
                let adds = 1 + m.pick(3);
                let a = m.pick(letters.len());
                (w, *m.of(&lens), (0..adds).map(|k| letters[(a + 3 * k) % letters.len()].clone()).collect::<Vec<_>>())
            },
            |(w, n, adds), o| {
                let v = has(*w, VERSION).then(ver);
                let mut infos: Vec<Av> = (0..*n).map(|k| name(1 + (k % 5) as u16, ["", "a", "é"][k % 3])).collect();
                infos.push(Av::Eol);
                let mut m = Chal { flags: *w, name: None, sc: pattern(3), infos, ver: v };
                let mut r = real::dec_chal_real(&encode(&Msg::Chal(m.clone()))).ok_or("the start does not decode")?;
                for a in adds {
                    real::add_info(&mut r, a);
                    m.infos.insert(m.infos.len() - 1, a.clone());
                    m.flags = put(m.flags, TARGET_INFO, true);
                    o.steps(1);
                    o.state(&(n, &m.flags, m.infos.len(), a));
                    let g = real::chal_m(&r);
                    if g != m {
                        return Err(format!("is {g:x?}, expected {m:x?}").chars().take(3000).collect());
                    }
                }
                Ok(())
            },
        ));
    }
    // AUTHENTICATE
    {
        let depth = if deep { 8 } else { 6 };
        let n = seq_count(3, depth);
        out.push(Space::of(
            &format!("AUTHENTICATE: up to {depth} calls"),
            n * (WORDS.len() * 2) as u64,
            move |i| {
                let mut m = Mix(i);
                let w = *m.of(&WORDS);
                let full = m.flag();
                let ops: Vec<Option<[u8; 16]>> = seq_at(3, m.0).iter().map(|o| [None, Some(pattern(3)), Some([0; 16])][*o]).collect();
                (w, full, ops)
            },
            |(w, full, ops), o| {
                let mut m = Auth { flags: *w, ..Default::default() };
                if *full {
                    m.lm = Some(Lm::V2(pattern(4)));
                    m.nt = Some(Nt::V1(pattern(5)));
                    m.user = some("u");
                    m.domain = some("d");
                    m.ws = some("w");
                    m.ver = Some(ver());
                    m.mic = pattern(8);
                }
                let mut r: Authenticate = real::auth_r(&m);
                for k in ops {
                    r.set_encrypted_random_session_key(k.map(|k| k.into()));
                    m.key = *k;
                    m.flags = put(m.flags, KEY_EXCH, k.is_some());
                    o.steps(1);
                    o.state(&m);
                    let g = real::auth_m(&r);
                    if g != m {
                        return Err(format!("is {g:x?}, expected {m:x?}"));
                    }
                }
                Ok(())
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C25

type Trip = fn(&[u8]) -> Option<(Vec<u8>, usize, Vec<u8>)>;

/// A structure: name, size, a valid value, which encodings are valid, and a decoder giving what the
/// code encodes the value to and what its fields stand for.
struct Fixed {
    name: &'static str,
    base: Vec<u8>,
    valid: fn(&[u8]) -> bool,
    trip: Trip,
}

fn fixeds() -> Vec<Fixed> {
    macro_rules! trip {
        ($m:ident, $v:ident => $bytes:expr) => {
            |b: &[u8]| {
                verif::$m::decode(b).map(|($v, _)| {
                    let (e, n) = verif::$m::encode(&$v);
                    (e, n, $bytes)
                })
            }
        };
    }
    let blob_head = blob_bytes(&Blob { infos: vec![], ..blob() });
    let mut sig = 1u32.to_le_bytes().to_vec();
    sig.extend(pattern::<12>(0x19));
    vec![
        Fixed {
            name: "version",
            base: ver_bytes(&ver()).to_vec(),
            valid: |b| b[4..7] == [0; 3] && b[7] == 15,
            trip: trip!(version, v => {
                let b = v.build.to_le_bytes();
                vec![v.major, v.minor, b[0], b[1], 0, 0, 0, v.revision_count]
            }),
        },
        Fixed {
            name: "file time",
            base: pattern::<8>(0x37).to_vec(),
            valid: |_| true,
            trip: trip!(filetime, v => ((v.high as u64) << 32 | v.low as u64).to_le_bytes().to_vec()),
        },
        Fixed {
            name: "single-host data",
            base: av_value(&host()).1,
            valid: |b| b[4..8] == [0; 4],
            trip: trip!(single_host_data, v => host_bytes(v.size, v.z4, &v.custom_data, &v.machine_id)),
        },
        Fixed {
            name: "pair flags",
            base: vec![5, 0, 0, 0],
            valid: |b| b[0] < 8 && b[1..4] == [0; 3],
            trip: trip!(av_flags, v => real::av_flags_m(&v).to_le_bytes().to_vec()),
        },
        Fixed {
            name: "message signature",
            base: sig,
            valid: |b| b[..4] == [1, 0, 0, 0],
            trip: trip!(signature, v => {
                let mut b = vec![1, 0, 0, 0];
                b.extend(&v.random_pad[..]);
                b.extend(v.checksum.to_le_bytes());
                b.extend(v.seq_num.to_le_bytes());
                b
            }),
        },
        Fixed { name: "LMv1 response", base: pattern::<24>(1).to_vec(), valid: |_| true, trip: trip!(lmv1, v => v.response.to_vec()) },
        Fixed {
            name: "LMv2 response",
            base: pattern::<24>(2).to_vec(),
            valid: |_| true,
            trip: trip!(lmv2, v => [&v.response[..], &v.challenge_from_client[..]].concat()),
        },
        Fixed { name: "NTLMv1 response", base: pattern::<24>(3).to_vec(), valid: |_| true, trip: trip!(ntv1, v => v.response.to_vec()) },
        Fixed {
            name: "head of an NTLMv2 response",
            base: blob_head,
            valid: |b| b[..8] == [1, 1, 0, 0, 0, 0, 0, 0] && b[24..28] == [0; 4],
            trip: trip!(ntv2, v => blob_bytes(&real::blob_m(&v))),
        },
        Fixed { name: "integrity code", base: pattern::<16>(4).to_vec(), valid: |_| true, trip: trip!(mic, v => v.to_vec()) },
        Fixed { name: "server challenge", base: pattern::<8>(5).to_vec(), valid: |_| true, trip: trip!(server_challenge, v => v.to_vec()) },
        Fixed { name: "session key", base: pattern::<16>(6).to_vec(), valid: |_| true, trip: trip!(session_key, v => v.to_vec()) },
    ]
}

fn fixed_trip(s: &Fixed, b: &[u8], o: &mut Obs) -> Res {
    o.steps(2);
    o.state(&(s.name, b));
    let got = (s.trip)(b);
    match (&got, (s.valid)(b)) {
        (None, false) => {
            o.outcome("refused");
            Ok(())
        }
        (Some((e, n, f)), true) => {
            o.outcome("kept");
            if f != b {
                return Err(format!("{}: the fields stand for {}", s.name, show(f)));
            }
            if e != b || *n != b.len() {
                return Err(format!("{}: comes back as {} ({n} bytes reported)", s.name, show(e)));
            }
            Ok(())
        }
        (Some(_), false) => Err(format!("{}: an invalid encoding is accepted", s.name)),
        (None, true) => Err(format!("{}: a valid encoding is refused", s.name)),
    }
}

fn fixed_space(name: &str, sizes: Vec<u64>, f: impl Fn(&[u8], u64) -> Vec<u8> + Send + Sync + Clone + 'static) -> Space {
    let all = Arc::new(fixeds());
    let segs = Segs::new(sizes);
    let at = {
        let (all, segs, f) = (all.clone(), segs.clone(), f);
        move |i: u64| {
            let (s, i) = segs.find(i);
            (s, f(&all[s].base, i))
        }
    };
    let at2 = at.clone();
    let all2 = all.clone();
    Space::new(
        name,
        segs.len(),
        move |i| {
            let (s, b) = at(i);
            format!("{} {}", all[s].name, show(&b))
        },
        move |i, o| {
            let (s, b) = at2(i);
            fixed_trip(&all2[s], &b, o)
        },
    )
    .must_see(&["kept", "refused"])
}

pub fn c25(deep: bool) -> Vec<Space> {
    let mut out = vec![];
    let lens: Vec<u64> = fixeds().iter().map(|f| f.base.len() as u64).collect();
    out.push(fixed_space("every value of every byte", lens.iter().map(|n| n * 256).collect(), |b, i| {
        let mut v = b.to_vec();
        v[(i / 256) as usize] = i as u8;
        v
    }));
    out.push(fixed_space("every value of two bytes next to each other", lens.iter().map(|n| (n - 1) * 65536).collect(), |b, i| {
        let mut v = b.to_vec();
        let at = (i / 65536) as usize;
        v[at..at + 2].copy_from_slice(&(i as u16).to_le_bytes());
        v
    }));
    let alpha: &'static [u8] = if deep { BYTES } else { FEW };
    let k = (alpha.len() * alpha.len()) as u64;
    out.push(fixed_space("two bytes anywhere", lens.iter().map(|n| n * n * k).collect(), move |b, i| {
        let mut m = Mix(i);
        let mut v = b.to_vec();
        let (p, q) = (m.pick(b.len()), m.pick(b.len()));
        v[p] = *m.of(alpha);
        v[q] = *m.of(alpha);
        v
    }));
    out.push(fixed_space("single bits", lens.iter().map(|n| n * 8 * 3).collect(), |b, i| {
        let mut v = b.to_vec();
        match i % 3 {
            0 => v.fill(0),
            1 => v.fill(0xff),
            _ => {}
        }
        v[(i / 24) as usize] ^= 1 << (i / 3 % 8);
        v
    }));
    out.push(fixed_space("filled with one byte", lens.iter().map(|n| (n + 1) * 256).collect(), |b, i| {
        let mut v = b.to_vec();
        let from = (i / 256) as usize;
        for x in &mut v[from..] {
            *x = i as u8;
        }
        v
    }));
    // Whole words of the small structures
    {
        let words = Arc::new(sparse_words(if deep { 5 } else { 3 }));
        let n = words.len() as u64;
        let all = lens.iter().map(|l| l / 4 * n).collect();
        out.push(fixed_space("words with few bits set, clear or unlike usual words", all, move |b, i| {
            let mut v = b.to_vec();
            let at = (i / n) as usize * 4;
            v[at..at + 4].copy_from_slice(&words[(i % n) as usize].to_le_bytes());
            v
        }));
    }
    // Cut and continued
    {
        let all = Arc::new(fixeds());
        let segs = Segs::new(lens.iter().map(|n| (n + 20) * 3));
        let at = move |i: u64| {
            let (s, i) = segs.find(i);
            let mut v = all[s].base.clone();
            let n = (i / 3) as usize;
            let fill = [0u8, 1, 0xff][(i % 3) as usize];
            v.resize(n, fill);
            (s, v)
        };
        let len: u64 = lens.iter().map(|n| (n + 20) * 3).sum();
        let all = Arc::new(fixeds());
        out.push(Space::of("every length", len, at, move |(s, b), o| {
            let f = &all[*s];
            o.steps(1);
            o.state(&(f.name, b));
            let got = (f.trip)(b);
            if b.len() < f.base.len() {
                return match got {
                    None => Ok(()),
                    Some((e, ..)) => Err(format!("{}: {} bytes are decoded as {}", f.name, b.len(), show(&e))),
                };
            }
            match got {
                // What follows belongs to somebody else, or to the list of an NTLMv2 response
                Some((e, _, w)) if e[..f.base.len()] == f.base[..] && w == e => Ok(()),
                None if b.len() > f.base.len() => Ok(()),
                g => Err(format!("{}: decoded as {g:x?}", f.name)),
            }
        }));
    }
    // From fields to bytes, decodable or not
    out.push(Space::of(
        "version fields",
        65536 * 4,
        |i| {
            let w = (i / 4) as u16;
            match i % 4 {
                0 => Ver { major: w as u8, minor: (w >> 8) as u8, build: 0, rev: 15 },
                1 => Ver { major: 1, minor: 2, build: w, rev: 15 },
                2 => Ver { major: w as u8, minor: 0, build: 0xff, rev: (w >> 8) as u8 },
                _ => Ver { major: 6, minor: w as u8, build: 0x1234, rev: (w >> 8) as u8 },
            }
        },
        |v, o| {
            o.steps(2);
            o.state(v);
            let (b, n) = verif::version::encode(&real::ver_r(v));
            if b != ver_bytes(v) || n != 8 {
                return Err(format!("is encoded as {b:x?} ({n} bytes reported)"));
            }
            let arr: [u8; 8] = b[..].try_into().unwrap();
            let got = st::Version::try_from(arr).ok().map(|g| real::ver_m(&g));
            if got.as_ref() != Some(v).filter(|v| v.rev == 15) {
                return Err(format!("decodes as {got:?}"));
            }
            let made: st::Version = (v.major, v.minor, v.build).into();
            if real::ver_m(&made) != (Ver { rev: 15, ..v.clone() }) {
                return Err(format!("made from its parts it is {made:?}"));
            }
            Ok(())
        },
    ));
    out.push(Space::of(
        "raw versions",
        65536 * 28,
        |i| {
            let (mut p, mut k) = (0, i / 65536);
            while k >= 7 - p {
                k -= 7 - p;
                p += 1;
            }
            let q = p + 1 + k;
            let mut b = ver_bytes(&ver());
            b[p as usize] = i as u8;
            b[q as usize] = (i >> 8) as u8;
            b
        },
        |b, o| {
            o.steps(1);
            let got = st::Version::try_from(*b).ok().map(|g| real::ver_m(&g));
            o.state(&got);
            if got != dec_ver(b) {
                return Err(format!("decodes as {got:?}, expected {:?}", dec_ver(b)));
            }
            Ok(())
        },
    ));
    {
        let words = sparse_words(2);
        out.push(Space::of(
            "single-host fields",
            (words.len() * 2 * 4) as u64,
            move |i| {
                let mut m = Mix(i);
                let w = *m.of(&words);
                let (size, z4) = if m.flag() { (w, 0) } else { (48, w) };
                let k = m.pick(4) as u8;
                Av::Host { size, z4, custom: pattern(k.wrapping_mul(77)), machine: pattern(k.wrapping_mul(91)) }
            },
            |h, o| {
                let Av::Host { size, z4, custom, machine } = h else { unreachable!() };
                o.steps(2);
                o.state(h);
                let (b, n) = verif::single_host_data::encode(&real::host_r(*size, *z4, *custom, *machine));
                if b != host_bytes(*size, *z4, custom, machine) || n != 48 {
                    return Err(format!("is encoded as {} ({n} bytes reported)", show(&b)));
                }
                let got = verif::single_host_data::decode(&b).is_some();
                if got != (*z4 == 0) {
                    return Err(format!("decoding it again gives a value: {got}"));
                }
                Ok(())
            },
        ));
    }
    out.push(Space::of("pair flag fields", 8, |i| i as u32, |f, o| {
        o.steps(2);
        o.state(f);
        let (b, n) = verif::av_flags::encode(&real::av_flags_r(*f));
        if b != f.to_le_bytes() || n != 4 {
            return Err(format!("is encoded as {b:x?} ({n} bytes reported)"));
        }
        match verif::av_flags::decode(&b) {
            Some((g, _)) if real::av_flags_m(&g) == *f => Ok(()),
            g => Err(format!("decodes as {g:?}")),
        }
    }));
    out
}
