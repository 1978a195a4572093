//! C30: an encoder hands over all bytes or reports the failure, whatever the destination does.

use crate::engine::*;
use crate::gen::*;
use crate::real::*;
use crate::spec::*;
use http_ntlm::messages::structures as st;
use http_ntlm::verif;
use std::io::{Error, ErrorKind, Write};
use std::sync::Arc;

/// The destination's answer to one request to write.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Answer {
    All,
    /// Takes at most so many bytes
    Short(usize),
    /// Interrupted: the caller is to try again
    Again,
    /// Takes nothing: the destination is full
    Full,
    Broken(ErrorKind),
    /// Fails with a number of the system
    System(i32),
    /// Fails with words of its own
    Told(ErrorKind),
}
use Answer::*;

const WORDS: &str = "the disk burns";

/// Is this what the destination failed with?
fn own(e: &Error, failed: Answer) -> bool {
    match failed {
        Full => e.kind() == ErrorKind::WriteZero,
        Broken(k) => e.kind() == k,
        System(n) => e.raw_os_error() == Some(n),
        Told(k) => e.kind() == k && e.get_ref().is_some_and(|e| e.to_string() == WORDS),
        _ => false,
    }
}

/// All ways to fail, interruptions aside.
fn failures() -> Vec<Answer> {
    use ErrorKind as E;
    let kinds = [
        E::NotFound, E::PermissionDenied, E::ConnectionRefused, E::ConnectionReset, E::HostUnreachable, E::NetworkUnreachable, E::ConnectionAborted, E::NotConnected,
        E::AddrInUse, E::AddrNotAvailable, E::NetworkDown, E::BrokenPipe, E::AlreadyExists, E::WouldBlock, E::NotADirectory, E::IsADirectory, E::DirectoryNotEmpty,
        E::ReadOnlyFilesystem, E::StaleNetworkFileHandle, E::InvalidInput, E::InvalidData, E::TimedOut, E::WriteZero, E::StorageFull, E::NotSeekable, E::QuotaExceeded,
        E::FileTooLarge, E::ResourceBusy, E::ExecutableFileBusy, E::Deadlock, E::CrossesDevices, E::TooManyLinks, E::InvalidFilename, E::ArgumentListTooLong,
        E::Unsupported, E::UnexpectedEof, E::OutOfMemory, E::Other,
    ];
    let numbers = (-1..=140).filter(|n| Error::from_raw_os_error(*n).kind() != E::Interrupted);
    kinds.into_iter().flat_map(|k| [Broken(k), Told(k)]).chain(numbers.map(System)).collect()
}

struct Sink {
    taken: Vec<u8>,
    answers: Vec<Answer>,
    /// What it answers after these
    then: Answer,
    calls: usize,
    failed: Option<Answer>,
    after_failure: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let a = self.answers.get(self.calls).copied().unwrap_or(self.then);
        self.calls += 1;
        if self.failed.is_some() {
            self.after_failure = true;
        }
        let n = match a {
            All => b.len(),
            Short(n) => n.min(b.len()),
            Again => return Err(Error::from(ErrorKind::Interrupted)),
            Full => {
                if !b.is_empty() {
                    self.failed.get_or_insert(Full);
                }
                0
            }
            Broken(k) => {
                self.failed.get_or_insert(a);
                return Err(Error::from(k));
            }
            System(n) => {
                self.failed.get_or_insert(a);
                return Err(Error::from_raw_os_error(n));
            }
            Told(k) => {
                self.failed.get_or_insert(a);
                return Err(Error::new(k, WORDS));
            }
        };
        self.taken.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

type Encode = Box<dyn Fn(&mut dyn Write) -> std::io::Result<usize> + Send + Sync>;

struct Item {
    name: String,
    want: Vec<u8>,
    /// How often a destination that takes everything is asked
    calls: usize,
    encode: Encode,
}

/// Messages and parts of `n` characters or more, so that they are written in large pieces.
fn large_items(n: usize) -> Vec<Item> {
    let mut v: Vec<(String, Encode)> = vec![];
    let text = |k: &str| format!("{}{k}", "x".repeat(n));
    let neg = neg_r(&Neg { flags: base_flags(), domain: some(&text("d")), ws: some(&text("w")), ver: None });
    v.push((format!("NEGOTIATE, names of {n}"), Box::new(move |w| verif::negotiate::encode_to(&neg, w))));
    let infos = vec![name(1, &"s".repeat(n)), Av::Time(7), Av::Eol];
    for (what, target, infos) in [("name", text("t"), vec![]), ("target information", "t".into(), infos.clone()), ("name and target information", text("t"), infos.clone())] {
        let r = chal_r(&Chal { flags: base_flags(), name: some(&target), sc: pattern(0x81), infos, ver: None });
        v.push((format!("CHALLENGE, {what} of {n}"), Box::new(move |w| verif::challenge::encode_to(&r, w))));
    }
    let mut b = blob();
    b.infos = infos.clone();
    for (what, nt, user) in [("names", Nt::V1(pattern(5)), text("u")), ("response", Nt::V2R(pattern(3), b.clone()), "u".into()), ("names and response", Nt::V2R(pattern(3), b.clone()), text("u"))] {
        let a = Auth { lm: Some(Lm::V2(pattern(6))), nt: Some(nt), domain: some(&user), user: some(&user), ws: some(&user), key: Some(pattern(0xc3)), flags: base_flags(), ver: None, mic: pattern(0xe5) };
        let r = auth_r(&a);
        v.push((format!("AUTHENTICATE, {what} of {n}"), Box::new(move |w| verif::authenticate::encode_to(&r, w))));
    }
    let nt = nt_r(&Nt::V2R(pattern(3), b.clone()));
    v.push((format!("NT response, pair of {n}"), Box::new(move |w| verif::nt::encode_to(&nt, w))));
    let b = blob_r(&b);
    v.push((format!("NTLMv2 response, pair of {n}"), Box::new(move |w| verif::ntv2::encode_to(&b, w))));
    for id in [1, 2, 3, 4, 5, 9] {
        let r = av_r(&name(id, &text("p")));
        v.push((format!("pair {id} of {n}"), Box::new(move |w| verif::av_pair::encode_to(&r, w))));
    }
    let list: Vec<_> = (0..n / 20).map(|k| av_r(&name(1 + (k % 5) as u16, "eight888"))).chain([av_r(&Av::Eol)]).collect();
    v.push((format!("pairs of {n} characters together"), Box::new(move |w| verif::av_pairs::encode_to(&list, w))));
    measured(v)
}

fn items() -> Vec<Item> {
    let mut v: Vec<(String, Encode)> = vec![];
    for (name, m) in base_msgs() {
        let e: Encode = match m {
            Msg::Neg(n) => {
                let r = neg_r(&n);
                Box::new(move |w| verif::negotiate::encode_to(&r, w))
            }
            Msg::Chal(n) => {
                let r = chal_r(&n);
                Box::new(move |w| verif::challenge::encode_to(&r, w))
            }
            Msg::Auth(n) => {
                let r = auth_r(&n);
                Box::new(move |w| verif::authenticate::encode_to(&r, w))
            }
        };
        v.push((name.to_string(), e));
    }
    for a in av_letters().into_iter().chain([Av::Eol]) {
        let r = av_r(&a);
        v.push((format!("pair {a:?}"), Box::new(move |w| verif::av_pair::encode_to(&r, w))));
    }
    let list: Vec<_> = full_infos().iter().map(av_r).collect();
    v.push(("all pairs".into(), Box::new(move |w| verif::av_pairs::encode_to(&list, w))));
    let b = blob_r(&blob());
    v.push(("NTLMv2 response".into(), Box::new(move |w| verif::ntv2::encode_to(&b, w))));
    for (name, nt) in [("v1", Nt::V1(pattern(5))), ("v2", Nt::V2(blob())), ("v2 with proof", Nt::V2R(pattern(3), blob()))] {
        let r = nt_r(&nt);
        v.push((format!("NT response {name}"), Box::new(move |w| verif::nt::encode_to(&r, w))));
    }
    for (name, lm) in [("v1", Lm::V1(pattern(5))), ("v2", Lm::V2(pattern(6)))] {
        let r = lm_r(&lm);
        v.push((format!("LM response {name}"), Box::new(move |w| verif::lm::encode_to(&r, w))));
    }
    let r = ver_r(&ver());
    v.push(("version".into(), Box::new(move |w| verif::version::encode_to(&r, w))));
    let r = ft_r(0x01d9_1234_5678_9abc);
    v.push(("file time".into(), Box::new(move |w| verif::filetime::encode_to(&r, w))));
    let r = host_r(48, 0, pattern(0x31), pattern(0x55));
    v.push(("single host".into(), Box::new(move |w| verif::single_host_data::encode_to(&r, w))));
    let r = av_flags_r(5);
    v.push(("pair flags".into(), Box::new(move |w| verif::av_flags::encode_to(&r, w))));
    v.push(("flags".into(), Box::new(|w| verif::flags::encode_to(&http_ntlm::messages::Flags(0x8123_4567), w))));
    let r = verif::signature::decode(&[1, 0, 0, 0, 9, 8, 7, 6, 5, 4, 3, 2, 1, 2, 3, 4]).expect("a signature").0;
    v.push(("signature".into(), Box::new(move |w| verif::signature::encode_to(&r, w))));
    let r: st::Mic = pattern::<16>(0x44).into();
    v.push(("integrity code".into(), Box::new(move |w| verif::mic::encode_to(&r, w))));
    let r: st::ServerChallenge = pattern::<8>(0x44).into();
    v.push(("server challenge".into(), Box::new(move |w| verif::server_challenge::encode_to(&r, w))));
    measured(v)
}

fn measured(v: Vec<(String, Encode)>) -> Vec<Item> {
    v.into_iter()
        .map(|(name, encode)| {
            let mut want = vec![];
            encode(&mut want).expect("encoding to memory");
            let mut s = sink(vec![], All);
            encode(&mut s).expect("encoding to memory");
            Item { name, want, calls: s.calls, encode }
        })
        .collect()
}

fn sink(answers: Vec<Answer>, then: Answer) -> Sink {
    Sink { taken: vec![], answers, then, calls: 0, failed: None, after_failure: false }
}

fn judge(item: &Item, answers: Vec<Answer>, then: Answer, o: &mut Obs) -> Res {
    let mut s = sink(answers, then);
    let r = (item.encode)(&mut s);
    o.steps(s.calls as u64);
    o.state(&(&item.name, &s.taken, s.failed.is_some()));
    if !item.want.starts_with(&s.taken) {
        return Err(format!("the destination got {:x?}, which is not the start of {:x?}", s.taken, item.want));
    }
    if s.after_failure {
        return Err("the destination was used after it had failed".into());
    }
    match (r, s.failed) {
        (Ok(n), None) if n == item.want.len() && s.taken == item.want => {
            o.outcome("complete");
            Ok(())
        }
        (Ok(n), None) => Err(format!("{n} bytes are reported, the destination got {} of {}", s.taken.len(), item.want.len())),
        (Ok(n), Some(k)) => Err(format!("{n} bytes are reported as written, but the destination failed ({k:?}) and got {} of {}", s.taken.len(), item.want.len())),
        (Err(e), None) => Err(format!("the destination did not fail, but {e:?} is reported")),
        (Err(e), Some(k)) if !own(&e, k) => Err(format!("the destination failed with {k:?}, but {e:?} is reported")),
        (Err(_), Some(_)) => {
            o.outcome("failure reported");
            Ok(())
        }
    }
}

pub fn c30(deep: bool) -> Vec<Space> {
    let items = Arc::new(items());
    let kinds = [ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::WriteZero];
    let mut out = vec![];
    let large: Vec<usize> = if deep { vec![60, 100, 130, 250, 260, 500, 520, 1000, 1030, 2000, 2050, 4000, 4100, 8000, 8200, 16000, 16400, 30000] } else { vec![60, 130, 260, 520, 1030, 2050, 4100, 8200, 16400] };
    let large = Arc::new(large.into_iter().flat_map(large_items).collect::<Vec<_>>());
    let mk_of = |items: &Arc<Vec<Item>>, name: &str, segs: Segs, f: Arc<dyn Fn(&Item, u64) -> (Vec<Answer>, Answer) + Send + Sync>| {
        let (i1, s1, f1, i2) = (items.clone(), segs.clone(), f.clone(), items.clone());
        Space::new(
            name,
            segs.len(),
            move |i| {
                let (s, i) = s1.find(i);
                let (a, then) = f1(&i1[s], i);
                format!("{}: {a:?}, then {then:?}", i1[s].name)
            },
            move |i, o| {
                let (s, i) = segs.find(i);
                let (a, then) = f(&i2[s], i);
                judge(&i2[s], a, then, o)
            },
        )
    };
    let mk = |name: &str, segs: Segs, f: Arc<dyn Fn(&Item, u64) -> (Vec<Answer>, Answer) + Send + Sync>| mk_of(&items, name, segs, f);
    // Byte positions: what was taken so far is cut into pieces of one size, and then something happens
    let sizes: &'static [usize] = if deep { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 63, 64, 100] } else { &[1, 2, 3, 4, 5, 7, 8, 15, 16] };
    let events: Vec<Answer> = [All, Again, Full].into_iter().chain(kinds.map(Broken)).chain([Short(1)]).collect();
    {
        let events = events.clone();
        let ne = events.len() as u64;
        let segs = Segs::new(items.iter().map(|t| (t.want.len() as u64 + 2) * sizes.len() as u64 * ne));
        out.push(
            mk(
                "type x pieces of equal size x an answer after every number of writes",
                segs,
                Arc::new(move |_, i| {
                    let mut m = Mix(i);
                    let size = *m.of(sizes);
                    let ev = *m.of(&events);
                    let mut a = vec![Short(size); m.0 as usize];
                    a.push(ev);
                    (a, Short(size))
                }),
            )
            .must_see(&["complete", "failure reported"]),
        );
    }
    {
        let all = failures();
        let n = all.len() as u64;
        let segs = Segs::new(items.iter().map(|t| (t.calls as u64 + 1) * 2 * n));
        out.push(
            mk(
                "type x failure of every kind and number x after every number of writes x pieces",
                segs,
                Arc::new(move |_, i| {
                    let mut m = Mix(i);
                    let failure = *m.of(&all);
                    let before = if m.flag() { Short(3) } else { All };
                    let mut a = vec![before; m.0 as usize];
                    a.push(failure);
                    (a, All)
                }),
            )
            .must_see(&["complete", "failure reported"]),
        );
    }
    // Two answers anywhere, otherwise everything is taken
    let deviations: Vec<Answer> = if deep {
        [Short(1), Short(2), Short(3), Short(7), Again, Full, Broken(ErrorKind::BrokenPipe), Broken(ErrorKind::Other)].to_vec()
    } else {
        [Short(1), Short(3), Again, Full, Broken(ErrorKind::BrokenPipe)].to_vec()
    };
    let depth = if deep { 3 } else { 2 };
    {
        let d = deviations.clone();
        // Every write may be followed by more, for what it left
        let spots = |t: &Item| (t.calls + 2 * depth) as u64;
        let k = d.len() as u64 + 1;
        let segs = Segs::new(items.iter().map(|t| (spots(t) * (k - 1)).pow(depth as u32)));
        out.push(
            mk(
                &format!("type x up to {depth} answers anywhere"),
                segs,
                Arc::new(move |t, i| {
                    let mut m = Mix(i);
                    let n = t.calls + 2 * depth;
                    let mut a = vec![All; n];
                    for _ in 0..depth {
                        let at = m.pick(n);
                        a[at] = *m.of(&d);
                    }
                    (a, All)
                }),
            )
            .must_see(&["complete", "failure reported"]),
        );
    }
    // Every sequence of answers to the first writes
    {
        let d: Vec<Answer> = [All].into_iter().chain(deviations).collect();
        let len = if deep { 7 } else { 6 };
        let per = (d.len() as u64).pow(len);
        let segs = Segs::new(items.iter().map(|_| per));
        out.push(
            mk(
                &format!("type x every sequence of answers to the first {len} writes"),
                segs,
                Arc::new(move |_, i| {
                    let mut m = Mix(i);
                    ((0..len).map(|_| *m.of(&d)).collect(), All)
                }),
            )
            .must_see(&["complete", "failure reported"]),
        );
    }
    // Large pieces: what the destination does anywhere while it takes pieces of a size
    {
        let sizes: &'static [usize] = &[usize::MAX, 64, 100, 512, 1000, 1024, 4096, 8191, 8192, 8193, 16384];
        let events: Vec<Answer> = [All, Again, Full, Broken(ErrorKind::BrokenPipe), Short(1), Short(1000)].into_iter().collect();
        let ne = events.len() as u64;
        let writes = |t: &Item, size: usize| (t.calls + t.want.len() / size + 1) as u64;
        let tables: Vec<Vec<u64>> = large
            .iter()
            .map(|t| {
                let mut at = 0;
                sizes
                    .iter()
                    .map(|s| {
                        at += writes(t, *s) * ne;
                        at
                    })
                    .collect()
            })
            .collect();
        let segs = Segs::new(tables.iter().map(|t| *t.last().unwrap()));
        out.push(
            mk_of(
                &large,
                "large messages and parts x pieces of equal size x an answer after every number of writes",
                segs,
                Arc::new(move |t, i| {
                    let mut i = i;
                    let mut size = sizes[0];
                    for s in sizes {
                        size = *s;
                        let k = writes(t, *s) * ne;
                        if i < k {
                            break;
                        }
                        i -= k;
                    }
                    let mut m = Mix(i);
                    let ev = *m.of(&events);
                    let mut a = vec![Short(size); m.0 as usize];
                    a.push(ev);
                    (a, Short(size))
                }),
            )
            .must_see(&["complete", "failure reported"]),
        );
    }
    out
}
