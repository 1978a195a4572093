//! C24: the strict build against the default build. The default build writes a digest of the result
//! of decoding each message; the strict build decodes the same messages.

use crate::engine::*;
use crate::gen::*;
use crate::props::hs::{flag_bases, near};
use crate::real;
use crate::spec::bit::*;
use crate::spec::*;
use std::cell::RefCell;
use std::sync::{Arc, OnceLock};

struct Set {
    name: &'static str,
    len: u64,
    case: Arc<dyn Fn(u64) -> (Kind, Vec<u8>) + Send + Sync>,
}

fn flags_at(k: Kind) -> usize {
    match k {
        Kind::Neg => 12,
        Kind::Chal => 20,
        Kind::Auth => 60,
    }
}

/// What a strict build must refuse although a default build may decode it.
fn forbidden(k: Kind, b: &[u8]) -> bool {
    let at = flags_at(k);
    if b.len() >= at + 4 && !strict_flags(u32_at(b, at)) {
        return true;
    }
    k == Kind::Chal && b.len() >= 40 && u64_at(b, 32) != 0
}

fn digest(k: Kind, b: &[u8]) -> u64 {
    match guard(|| real::dec(k, b)) {
        Ok(Some(m)) => fx(&m) | 1,
        Ok(None) => 0,
        Err(_) => 2,
    }
}

fn sets(deep: bool) -> Vec<Set> {
    let msgs: Vec<(Kind, Vec<u8>)> = base_msgs().into_iter().map(|(_, m)| (m.kind(), encode(&m))).collect();
    let n = msgs.len();
    let mut v = vec![];
    let words = near(&flag_bases(), if deep { 3 } else { 2 });
    let ms = msgs.clone();
    v.push(Set {
        name: "messages x flags up to a few bits from usual words",
        len: (words.len() * n) as u64,
        case: Arc::new(move |i| {
            let mut m = Mix(i);
            let (k, mut b) = m.of(&ms).clone();
            let f = *m.of(&words);
            b[flags_at(k)..flags_at(k) + 4].copy_from_slice(&f.to_le_bytes());
            (k, b)
        }),
    });
    let ms = msgs.clone();
    let segs = Segs::new(msgs.iter().map(|m| m.1.len() as u64 * 256));
    v.push(Set {
        name: "messages x each byte x each value",
        len: segs.len(),
        case: Arc::new(move |i| {
            let (k, i) = segs.find(i);
            let (k, mut b) = ms[k].clone();
            b[(i / 256) as usize] = i as u8;
            (k, b)
        }),
    });
    let ms = msgs.clone();
    let segs = Segs::new(msgs.iter().map(|m| (m.1.len() as u64 + 1) * 3));
    v.push(Set {
        name: "messages x truncation x type it is decoded as",
        len: segs.len(),
        case: Arc::new(move |i| {
            let (k, i) = segs.find(i);
            let b = &ms[k].1;
            (KINDS[(i % 3) as usize], b[..(i / 3) as usize].to_vec())
        }),
    });
    let ms: Vec<_> = msgs.iter().filter(|m| m.0 == Kind::Chal).cloned().collect();
    let c = ms.len() as u64;
    v.push(Set {
        name: "CHALLENGE messages x reserved field, up to two bits and every byte value",
        len: c * (1 + 64 + 64 * 64 + 8 * 256),
        case: Arc::new(move |i| {
            let mut m = Mix(i);
            let (k, mut b) = m.of(&ms).clone();
            let r = match m.0 {
                0 => 0u64,
                i if i <= 64 => 1 << (i - 1),
                i if i <= 64 + 64 * 64 => {
                    let i = i - 65;
                    1 << (i % 64) | 1 << (i / 64)
                }
                i => {
                    let i = i - 65 - 64 * 64;
                    (i % 256) << (8 * (i / 256))
                }
            };
            b[32..40].copy_from_slice(&r.to_le_bytes());
            (k, b)
        }),
    });
    // Two changes at once: flags and anything else
    let ms = msgs;
    let bad: Vec<u32> = vec![
        base_flags(),
        base_flags() | 1 << RESERVED[0],
        base_flags() | 1 << RESERVED[9],
        base_flags() | bits(&[TYPE_SERVER, TYPE_DOMAIN]),
        base_flags() & !bits(&[UNICODE]),
        base_flags() | bits(&[LM_KEY]),
        base_flags() | bits(&[OEM]),
        base_flags() & !bits(&[UNICODE]) | bits(&[OEM]),
        base_flags() & !bits(&[ESS]) | bits(&[LM_KEY]),
        base_flags() | bits(&[TYPE_DOMAIN]),
        base_flags() | bits(&[VERSION]),
    ];
    let nb = bad.len() as u64;
    let values: &'static [u8] = if deep { BYTES } else { FEW };
    let segs = Segs::new(ms.iter().map(|m| m.1.len() as u64 * nb * values.len() as u64));
    v.push(Set {
        name: "messages x allowed and forbidden flags x each byte x values",
        len: segs.len(),
        case: Arc::new(move |i| {
            let (k, i) = segs.find(i);
            let (k, mut b) = ms[k].clone();
            let mut m = Mix(i);
            let f = *m.of(&bad);
            let v = *m.of(values);
            b[flags_at(k)..flags_at(k) + 4].copy_from_slice(&f.to_le_bytes());
            b[m.0 as usize] = v;
            (k, b)
        }),
    });
    // The versions, whose bytes only count together
    let ms: Vec<_> = base_msgs().into_iter().map(|(_, m)| (m.kind(), encode(&m))).filter(|(k, b)| u32_at(b, flags_at(*k)) & bits(&[VERSION]) != 0).collect();
    v.push(Set {
        name: "messages x version x build",
        len: ms.len() as u64 * 8 << 16,
        case: Arc::new(move |i| {
            let mut m = Mix(i);
            let (k, mut b) = m.of(&ms).clone();
            let (major, minor) = *m.of(&[(0, 0), (5, 1), (6, 0), (6, 1), (6, 3), (10, 0), (10, 1), (255, 255)]);
            let at = match k {
                Kind::Neg => 32,
                Kind::Chal => 48,
                Kind::Auth => 64,
            };
            b[at] = major;
            b[at + 1] = minor;
            b[at + 2..at + 4].copy_from_slice(&(m.0 as u16).to_le_bytes());
            (k, b)
        }),
    });
    // What C01 decodes
    for s in super::decode::decodings(taken, false) {
        v.push(Set { name: Box::leak(s.name.into_boxed_str()), len: s.len, case: Arc::new(move |i| take(i, &s.run)) });
    }
    v
}

thread_local! {
    static TAKEN: RefCell<Option<(Kind, Vec<u8>)>> = const { RefCell::new(None) };
}

/// No judgement: notes the bytes if they are for the decoder of a message.
fn taken(decoder: usize, b: &[u8], _: &mut Obs) -> Res {
    let kind = KINDS.into_iter().find(|k| real::DECODERS[decoder].0 == ["negotiate", "challenge", "authenticate"][*k as usize]);
    TAKEN.with(|t| *t.borrow_mut() = kind.map(|k| (k, b.to_vec())));
    Ok(())
}

fn take(i: u64, run: &(dyn Fn(u64, &mut Obs) -> Res + Send + Sync)) -> (Kind, Vec<u8>) {
    let _ = run(i, &mut Obs::default());
    TAKEN.with(|t| t.borrow_mut().take()).unwrap_or((Kind::Neg, vec![]))
}

pub fn write_digests(_id: &str, tier: &str, dir: &str) {
    for (n, s) in sets(tier == "thorough").iter().enumerate() {
        let mut out = vec![0u64; s.len as usize];
        let threads = std::thread::available_parallelism().map_or(8, |n| n.get());
        let chunk = out.len().div_ceil(threads);
        std::thread::scope(|sc| {
            for (t, part) in out.chunks_mut(chunk).enumerate() {
                sc.spawn(move || {
                    for (i, d) in part.iter_mut().enumerate() {
                        let (k, b) = (s.case)((t * chunk + i) as u64);
                        *d = digest(k, &b);
                    }
                });
            }
        });
        let bytes: Vec<u8> = out.iter().flat_map(|d| d.to_le_bytes()).collect();
        std::fs::write(format!("{dir}/digests-{n}"), bytes).expect("digest file");
    }
}

fn load(n: usize, len: u64) -> Vec<u8> {
    let dir = std::env::var("MC_DIGESTS").expect("MC_DIGESTS names the directory of the digests");
    let b = std::fs::read(format!("{dir}/digests-{n}")).expect("digest file");
    assert_eq!(b.len() as u64, len * 8);
    b
}

pub fn c24(deep: bool) -> Vec<Space> {
    let mut v = vec![];
    // Flags words alone: the default build refuses none (C08)
    let words: u64 = if deep { 1 << 32 } else { 1 << 26 };
    v.push(
        Space::new(
            "flags words, 65536 at a time",
            words >> 16,
            move |i| format!("words {i:#x} x 65536"),
            move |i, o| {
                for low in 0..1u64 << 16 {
                    // The low bits of the number are spread over the word when not all are tried
                    let n = i << 16 | low;
                    let w = if deep { n as u32 } else { (n as u32).wrapping_mul(0x9e3779b1) ^ (n >> 20) as u32 };
                    let got = http_ntlm::verif::flags::decode(&w.to_le_bytes());
                    let want = strict_flags(w).then_some((w, 0));
                    if got.map(|(f, n)| (f.0, n)) != want {
                        return Err(format!("the strict build decodes the flags {w:#x} to {:?}, expected {want:x?}", got.map(|g| g.0)));
                    }
                    if want.is_some() {
                        o.outcome("decoded");
                        if low % 64 == 0 {
                            o.state(&w);
                        }
                    }
                }
                o.steps(1 << 16);
                o.state(&i);
                o.outcome("refused");
                Ok(())
            },
        )
        .must_see(&["decoded", "refused"]),
    );
    for (n, s) in sets(deep).into_iter().enumerate() {
        let (case, case2) = (s.case.clone(), s.case);
        let len = s.len;
        let digests: OnceLock<Vec<u8>> = OnceLock::new();
        v.push(
            Space::new(
                s.name,
                len,
                move |i| {
                    let (k, b) = case2(i);
                    format!("{k:?} {}", super::decode::show(&b))
                },
                move |i, o| {
                    let d = digests.get_or_init(|| load(n, len));
                    let (k, b) = case(i);
                    if b.is_empty() {
                        // For another decoder
                        return Ok(());
                    }
                    let was = u64_at(d, i as usize * 8);
                    let now = digest(k, &b);
                    o.steps(2);
                    o.state(&(k, was, now));
                    if forbidden(k, &b) {
                        o.outcome("forbidden");
                        if now != 0 {
                            return Err(format!("the strict build decodes a forbidden message: {:x?}", guard(|| real::dec(k, &b))));
                        }
                        return Ok(());
                    }
                    o.outcome(if was == 0 { "refused by both" } else { "decoded by both" });
                    if was != now {
                        return Err(format!(
                            "the strict build gives {:x?}, the default build {}",
                            guard(|| real::dec(k, &b)),
                            if was == 0 { "refuses the message" } else { "something else" }
                        ));
                    }
                    Ok(())
                },
            )
            .must_see(if n < 5 { &["forbidden"] } else { &[] }),
        );
    }
    v[1].must_see = vec!["forbidden", "decoded by both"];
    v[2].must_see = vec!["forbidden", "decoded by both", "refused by both"];
    v
}
