//! Properties of the decoders: C01, C02, C05, C06.

use crate::engine::*;
use crate::gen::*;
use crate::real;
use crate::spec::*;
use std::cell::RefCell;
use std::sync::Arc;

// ---------------------------------------------------------------- C01

/// A buffer that ends where the address space has a hole.
struct GuardBuf {
    base: *mut u8,
    size: usize,
}
const PAGE: usize = 4096;
impl GuardBuf {
    fn new(size: usize) -> Self {
        let size = size.div_ceil(PAGE) * PAGE;
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), size + 2 * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let base = (p as *mut u8).add(PAGE);
            assert_eq!(libc::mprotect(base.cast(), size, libc::PROT_READ | libc::PROT_WRITE), 0);
            GuardBuf { base, size }
        }
    }
    fn put(&mut self, b: &[u8]) -> &[u8] {
        assert!(b.len() <= self.size);
        unsafe {
            let at = self.base.add(self.size - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            std::slice::from_raw_parts(at, b.len())
        }
    }
}
thread_local! {
    static GUARD: RefCell<GuardBuf> = RefCell::new(GuardBuf::new(1 << 18));
}

fn total(decoder: usize, b: &[u8], obs: &mut Obs) -> Res {
    let (name, f) = real::DECODERS[decoder];
    let r = GUARD.with(|g| {
        let mut g = g.borrow_mut();
        let bytes = g.put(b);
        if b.len() < 4096 {
            return Ok(f(bytes));
        }
        // Promptly: about 50 times what decoding takes; the best of three tries, to be sure
        let most = if env!("MC_OPT") == "0" { 250_000 + 12 * b.len() as u64 } else { 80_000 + b.len() as u64 };
        let mut took = u64::MAX;
        for _ in 0..3 {
            let start = crate::env::cpu_micros();
            let r = f(bytes);
            took = took.min(crate::env::cpu_micros() - start);
            if took <= most {
                return Ok(r);
            }
        }
        Err(format!("{name}: decoding {} bytes takes {} ms", b.len(), took / 1000))
    })?;
    obs.steps(1);
    obs.state(&(decoder, b));
    match r {
        Some(left) if left > b.len() => Err(format!("{name}: {left} bytes left of {}", b.len())),
        Some(_) => {
            obs.outcome("decoded");
            Ok(())
        }
        None => {
            obs.outcome("refused");
            Ok(())
        }
    }
}

fn decoder(name: &str) -> usize {
    real::DECODERS.iter().position(|d| d.0 == name).unwrap()
}

/// Well-formed bytes for the decoders, most of them for one and some for several.
fn bases() -> Vec<(usize, Vec<u8>)> {
    let mut v = vec![];
    for (_, m) in base_msgs() {
        let d = match m.kind() {
            Kind::Neg => "negotiate",
            Kind::Chal => "challenge",
            Kind::Auth => "authenticate",
        };
        v.push((decoder(d), encode(&m)));
    }
    v.push((decoder("av_pairs"), avs_bytes(&full_infos())));
    for a in av_letters() {
        v.push((decoder("av_pair"), av_bytes(&a)));
    }
    v.push((decoder("ntv2"), blob_bytes(&blob())));
    v.push((decoder("nt"), nt_bytes(&Nt::V2R(pattern(3), blob()))));
    v.push((decoder("nt"), blob_bytes(&blob())));
    v.push((decoder("nt"), vec![7; 24]));
    v.push((decoder("lm"), vec![7; 24]));
    v.push((decoder("single_host_data"), av_value(&host()).1));
    v.push((decoder("version"), ver_bytes(&ver()).to_vec()));
    let mut s = 1u32.to_le_bytes().to_vec();
    s.extend([9; 12]);
    v.push((decoder("signature"), s));
    v
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// What is demanded of a decoder that is handed these bytes
pub type Judge = fn(usize, &[u8], &mut Obs) -> Res;

fn bytes_space(
    judge: Judge,
    name: &str,
    len: u64,
    case: impl Fn(u64) -> (usize, Vec<u8>) + Send + Sync + Clone + 'static,
) -> Space {
    let c2 = case.clone();
    Space::new(
        name,
        len,
        move |i| {
            let (d, b) = c2(i);
            format!("{}({})", real::DECODERS[d].0, show(&b))
        },
        move |i, o| {
            let (d, b) = case(i);
            judge(d, &b, o)
        },
    )
}

/// Messages of `bases` with one and two bytes set, by number.
fn set_byte(i: u64, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v[(i / 256) as usize] = i as u8;
    v
}
fn pairs(n: usize) -> u64 {
    (n * (n - 1) / 2) as u64
}
fn pair_at(n: usize, mut i: u64) -> (usize, usize) {
    let mut a = 0;
    while i >= (n - 1 - a) as u64 {
        i -= (n - 1 - a) as u64;
        a += 1;
    }
    (a, a + 1 + i as usize)
}
fn set_pair(i: u64, b: &[u8], alpha: &[u8]) -> Vec<u8> {
    let k = (alpha.len() * alpha.len()) as u64;
    let (p, q) = pair_at(b.len(), i / k);
    let mut m = Mix(i % k);
    let mut v = b.to_vec();
    v[p] = *m.of(alpha);
    v[q] = *m.of(alpha);
    v
}

/// A message with one descriptor replaced by every (length, offset) of the alphabets.
#[derive(Clone)]
struct DescSpace {
    msgs: Arc<Vec<(Kind, Vec<u8>)>>,
    segs: Segs,
}
impl DescSpace {
    fn new(msgs: Vec<(Kind, Vec<u8>)>) -> Self {
        let segs = Segs::new(msgs.iter().map(|(k, b)| (descriptors(*k).len() * lengths(b.len()).len() * offsets(b.len()).len()) as u64));
        DescSpace { msgs: Arc::new(msgs), segs }
    }
    fn at(&self, i: u64) -> (Kind, Vec<u8>) {
        let (s, i) = self.segs.find(i);
        let (k, b) = &self.msgs[s];
        let mut m = Mix(i);
        let d = *m.of(descriptors(*k));
        let l = *m.of(&lengths(b.len()));
        let o = *m.of(&offsets(b.len()));
        let mut b = b.clone();
        put_desc(&mut b, d, l, l, o);
        (*k, b)
    }
    fn flipped(&self, i: u64) -> (Kind, Vec<u8>) {
        let (k, mut b) = self.at(i / 32);
        let at = match k {
            Kind::Neg => 12,
            Kind::Chal => 20,
            Kind::Auth => 60,
        };
        b[at + (i % 32 / 8) as usize] ^= 1 << (i % 8);
        (k, b)
    }
}

/// Two descriptors replaced.
#[derive(Clone)]
struct DescPairs {
    msgs: Arc<Vec<(Kind, Vec<u8>)>>,
    segs: Segs,
    lens: Vec<u16>,
    offs: Vec<i64>,
}
impl DescPairs {
    fn new(msgs: Vec<(Kind, Vec<u8>)>, lens: Vec<u16>, offs: Vec<i64>) -> Self {
        let per = (lens.len() * offs.len()) as u64;
        let segs = Segs::new(msgs.iter().map(|(k, _)| pairs(descriptors(*k).len()) * per * per));
        DescPairs { msgs: Arc::new(msgs), segs, lens, offs }
    }
    fn at(&self, i: u64) -> (Kind, Vec<u8>) {
        let (s, i) = self.segs.find(i);
        let (k, b) = &self.msgs[s];
        let ds = descriptors(*k);
        let mut m = Mix(i);
        let n = b.len() as i64;
        let mut b = b.clone();
        let picks: Vec<(u16, i64)> = (0..2).map(|_| (*m.of(&self.lens), *m.of(&self.offs))).collect();
        let (p, q) = pair_at(ds.len(), m.0);
        for (d, (l, o)) in [(ds[p], picks[0]), (ds[q], picks[1])] {
            // Negative offsets count from the end
            let o = if o < 0 { n + o + 1 } else { o };
            put_desc(&mut b, d, l, l.wrapping_add(3), o as u32);
        }
        (*k, b)
    }
}

fn kind_decoder(k: Kind) -> usize {
    decoder(match k {
        Kind::Neg => "negotiate",
        Kind::Chal => "challenge",
        Kind::Auth => "authenticate",
    })
}

fn msgs_of(l: &[&str]) -> Vec<(Kind, Vec<u8>)> {
    base_msgs().into_iter().filter(|(n, _)| l.is_empty() || l.contains(n)).map(|(_, m)| (m.kind(), encode(&m))).collect()
}

/// Messages of 64 KiB and more.
pub fn big_msgs() -> Vec<(Kind, Vec<u8>)> {
    let f = base_flags();
    let long = |n: usize| some(&"L".repeat(n));
    let mut v = vec![];
    for n in [127usize, 128, 255, 256, 16383, 16384, 32766, 32767] {
        v.push(Msg::Chal(Chal { flags: f, name: long(n), sc: [3; 8], infos: short_infos(), ver: None }));
        v.push(Msg::Auth(Auth {
            lm: Some(Lm::V2(pattern(9))),
            nt: Some(Nt::V2R(pattern(1), blob())),
            domain: long(n),
            user: long(n - 1),
            ws: long(n - 2),
            key: Some(pattern(7)),
            flags: f,
            ..Default::default()
        }));
        v.push(Msg::Neg(Neg { flags: f, domain: long(2 * n + 1), ws: long(2 * n), ver: None }));
    }
    for k in [1000usize, 16382] {
        let mut infos = vec![name(2, ""); k];
        infos.push(Av::Eol);
        v.push(Msg::Chal(Chal { flags: f, name: None, sc: [3; 8], infos, ver: None }));
    }
    v.push(Msg::Chal(Chal { flags: f, name: some("n"), sc: [3; 8], infos: vec![name(1, &"z".repeat(32763)), Av::Eol], ver: None }));
    v.iter().map(|m| (m.kind(), encode(m))).collect()
}

/// All lengths up to `all`, and those around round numbers up to `max`.
pub fn lens_to(all: usize, max: usize) -> Vec<usize> {
    let round = (5..17).map(|k| 1usize << k).chain([100, 1000, 1500, 5000, 10000, 20000, 30000, 40000, 50000, 60000, max]);
    let mut v: Vec<usize> = (0..=all).chain(round.flat_map(|r| [r - 2, r - 1, r, r + 1, r + 2])).filter(|n| *n <= max).collect();
    v.sort();
    v.dedup();
    v
}

/// One pair of each identifier with values of many lengths
fn one_pair(judge: Judge, deep: bool) -> Space {
    let lens = lens_to(if deep { 2100 } else { 300 }, 65000);
    bytes_space(judge, "a pair of any length, alone and before others", (0x0e * lens.len() * 4 * 4) as u64, move |i| {
        let mut m = Mix(i);
        let (id, len) = (m.pick(0x0e) as u16, *m.of(&lens));
        // Something the decoder of the value takes, then the rest
        let mut value = match m.pick(4) {
            0 => vec![0; len],
            1 => vec![0x41; len],
            2 => av_letters().iter().map(av_value).find(|v| v.0 == id).map_or(vec![], |v| v.1),
            _ => [vec![0x41, 0, 0, 0], vec![0xff; len]].concat(),
        };
        value.resize(len, 0xdc);
        let mut list = raw_av(id, &value);
        let where_ = m.pick(4);
        if where_ != 0 {
            list.extend(avs_bytes(&short_infos()));
        }
        match where_ {
            0 => (decoder("av_pair"), list),
            1 => (decoder("av_pairs"), list),
            2 => {
                let mut raw = raw_of(&Msg::Chal(Chal { flags: base_flags(), ..Default::default() }));
                raw.fields[1].1 = list;
                (decoder("challenge"), raw.canonical())
            }
            _ => {
                let mut blob = vec![1, 1, 0, 0, 0, 0, 0, 0];
                blob.extend([5; 20]);
                let mut raw = raw_of(&Msg::Auth(Auth { flags: base_flags(), ..Default::default() }));
                raw.fields[0].1 = vec![3; 24];
                raw.fields[1].1 = [vec![9; 16], blob, list, vec![0; 4]].concat();
                (decoder("authenticate"), raw.canonical())
            }
        }
    })
}

/// A field of many lengths in each message
fn any_field(deep: bool) -> Space {
    let lens = lens_to(if deep { 2100 } else { 300 }, 65000);
    let msgs = Arc::new(base_msgs().into_iter().map(|m| m.1).collect::<Vec<_>>());
    let n = msgs.len() * lens.len() * 6 * 5;
    judged_space("one field of any length", n as u64, move |i| {
        let mut m = Mix(i);
        let msg = m.of(&msgs);
        let mut raw = raw_of(msg);
        let len = *m.of(&lens);
        let k = m.pick(6) % raw.fields.len();
        let own = raw.fields[k].1.clone();
        let letters = |b: u8| [b, 0].into_iter().cycle();
        raw.fields[k].1 = match m.pick(5) {
            0 => letters(0x41).take(len).collect(),
            // The text ends inside
            1 => letters(0x41).take(len & !1).zip(0..).map(|(b, at)| if at / 2 == len / 4 { 0 } else { b }).collect(),
            2 => own.iter().copied().chain(std::iter::repeat(0)).take(len).collect(),
            3 => own.iter().copied().chain(letters(0x42)).take(len).collect(),
            // The other payload is the end of this field
            _ => own.iter().copied().cycle().take(if own.is_empty() { 0 } else { len }).collect(),
        };
        (msg.kind(), raw.canonical())
    })
}

/// Fields of the greatest length, over bytes of every kind
fn same_bytes(judge: Judge) -> Space {
    let fill: Vec<u8> = vec![0, 1, 0x20, 0x41, 0xd8, 0xdc, 0xff];
    let n_fill = fill.len() as u64;
    bytes_space(judge, "every field designates the same 65535 bytes", 3 * n_fill * 3, move |i| {
        let mut m = Mix(i);
        let k = *m.of(&KINDS);
        let f = *m.of(&fill);
        let len = [0xffffu16, 0xfffe, 0x8001][m.pick(3)];
        let mut b = encode(&match k {
            Kind::Neg => Msg::Neg(Neg { flags: base_flags(), ..Default::default() }),
            Kind::Chal => Msg::Chal(Chal { flags: base_flags(), ..Default::default() }),
            Kind::Auth => Msg::Auth(Auth { flags: base_flags(), ..Default::default() }),
        });
        let off = b.len() as u32;
        b.extend(std::iter::repeat(f).take(len as usize));
        for d in descriptors(k) {
            put_desc(&mut b, *d, len, len, off);
        }
        (kind_decoder(k), b)
    })
}

/// Fields as full of equal elements as they can be: whoever recurses over them runs out of stack.
fn full_fields(judge: Judge, deep: bool) -> Space {
    let ids: Vec<u16> = (0..0x12).chain([0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff]).collect();
    let lens: &[usize] = if deep { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 20, 24, 48, 49, 64, 255, 256, 1024] } else { &[0, 1, 2, 4, 8, 48] };
    let fills: &[u8] = if deep { &[0, 1, 0x20, 0x41, 0xd8, 0xff] } else { &[0, 0x41] };
    let n = ids.len() * lens.len() * fills.len() * 4 * 5;
    bytes_space(judge, "fields full of equal pairs", n as u64, move |i| {
        let mut m = Mix(i);
        let (id, len, fill) = (*m.of(&ids), *m.of(lens), *m.of(fills));
        let (first, ended) = (m.flag(), m.flag());
        let mut list = vec![];
        if first {
            list.extend([2, 0, 2, 0, 0x41, 0]);
        }
        while list.len() + 4 + len + 4 <= 0xffff - 64 {
            list.extend(id.to_le_bytes());
            list.extend((len as u16).to_le_bytes());
            list.resize(list.len() + len, fill);
        }
        if ended {
            list.extend([0; 4]);
        }
        let mut blob = vec![1, 1, 0, 0, 0, 0, 0, 0];
        blob.extend([5; 16]);
        blob.extend([0; 4]);
        match m.pick(5) {
            0 => (decoder("av_pairs"), list),
            1 => {
                let mut raw = raw_of(&Msg::Chal(Chal { flags: base_flags(), ..Default::default() }));
                raw.fields[1].1 = list;
                (decoder("challenge"), raw.canonical())
            }
            2 => (decoder("ntv2"), [blob, list].concat()),
            3 => (decoder("nt"), [vec![9; 16], blob, list, vec![0; 4]].concat()),
            _ => {
                let mut raw = raw_of(&Msg::Auth(Auth { flags: base_flags(), ..Default::default() }));
                raw.fields[0].1 = vec![3; 24];
                raw.fields[1].1 = [vec![9; 16], blob, list, vec![0; 4]].concat();
                (decoder("authenticate"), raw.canonical())
            }
        }
    })
}

pub fn c01(deep: bool) -> Vec<Space> {
    // These come first and are all that the build without optimisation runs
    let n = if env!("MC_OPT") == "0" { 2 } else { usize::MAX };
    decodings(total, deep).into_iter().take(n).collect()
}

/// The bytes that are handed to the decoders.
pub fn decodings(judge: Judge, deep: bool) -> Vec<Space> {
    let mut out = vec![full_fields(judge, deep).must_see(&["decoded", "refused"]), same_bytes(judge), one_pair(judge, deep).must_see(&["decoded", "refused"])];
    let max = if deep { 3 } else { 2 };
    let per = seq_count(256, max);
    out.push(bytes_space(judge, &format!("byte strings up to {max}"), per * real::DECODERS.len() as u64, move |i| {
        let s = seq_at(256, i % per);
        ((i / per) as usize, s.iter().map(|b| *b as u8).collect())
    })
    .must_see(&["decoded", "refused"]));

    let bs = Arc::new(bases());
    let segs = Segs::new(bs.iter().map(|b| b.1.len() as u64 + 1));
    {
        let (bs, segs) = (bs.clone(), segs);
        out.push(bytes_space(judge, "truncations", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            (bs[s].0, bs[s].1[..i as usize].to_vec())
        }));
    }
    let segs = Segs::new(bs.iter().map(|b| b.1.len() as u64 * 256));
    {
        let (bs, segs) = (bs.clone(), segs);
        out.push(bytes_space(judge, "one byte changed", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            (bs[s].0, set_byte(i, &bs[s].1))
        }));
    }
    let alpha: &'static [u8] = if deep { BYTES } else { FEW };
    let segs = Segs::new(bs.iter().map(|b| pairs(b.1.len()) * (alpha.len() * alpha.len()) as u64));
    {
        let (bs, segs) = (bs.clone(), segs);
        out.push(bytes_space(judge, "two bytes changed", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            (bs[s].0, set_pair(i, &bs[s].1, alpha))
        }));
    }
    // A truncation and a changed byte before it
    let segs = Segs::new(bs.iter().map(|b| pairs(b.1.len()) * alpha.len() as u64));
    {
        let (bs, segs) = (bs.clone(), segs);
        out.push(bytes_space(judge, "truncation and one byte changed", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            let b = &bs[s].1;
            let (p, q) = pair_at(b.len(), i / alpha.len() as u64);
            let mut v = b[..q].to_vec();
            v[p] = alpha[(i % alpha.len() as u64) as usize];
            (bs[s].0, v)
        }));
    }
    let ds = DescSpace::new(msgs_of(&[]));
    let ds = Arc::new(ds);
    let ds1 = ds.clone();
    out.push(bytes_space(judge, "one descriptor replaced", ds.segs.len(), move |i| {
        let (k, b) = ds.at(i);
        (kind_decoder(k), b)
    }));
    out.push(bytes_space(judge, "one descriptor replaced and one flag changed", ds1.segs.len() * 32, move |i| {
        let (k, b) = ds1.flipped(i);
        (kind_decoder(k), b)
    }));
    let (lens, offs) = if deep {
        (vec![0, 1, 2, 15, 16, 17, 24, 28, 49, 0x7fff, 0x8000, 0xffff], vec![0, 12, 48, 63, 64, 90, -1, -2, -3, -17, -25, 0x7fff_ffff, 0x8000_0000, 0xffff_0001, 0xffff_ffff])
    } else {
        (vec![0, 1, 16, 24, 0xffff], vec![0, 64, -1, -2, -17, -25, 0xffff_ffff])
    };
    let dp = DescPairs::new(msgs_of(&["negotiate full", "challenge full", "authenticate v1", "authenticate v2"]), lens, offs);
    out.push(bytes_space(judge, "two descriptors replaced", dp.segs.len(), move |i| {
        let (k, b) = dp.at(i);
        (kind_decoder(k), b)
    }));
    let pieces = Arc::new(av_pieces());
    let depth = if deep { 4 } else { 3 };
    let n = seq_count(pieces.len() as u64, depth);
    out.push(bytes_space(judge, &format!("attribute lists up to {depth}"), n * 4, move |i| {
        let list: Vec<u8> = seq_at(pieces.len() as u64, i % n).iter().flat_map(|k| pieces[*k].1.clone()).collect();
        let mut blob = vec![1, 1, 0, 0, 0, 0, 0, 0];
        blob.extend([5; 16]);
        blob.extend([0; 4]);
        blob.extend(&list);
        match i / n {
            0 => (decoder("av_pairs"), list),
            1 => (decoder("ntv2"), blob),
            2 => {
                let mut v = vec![9; 16];
                v.extend(&blob);
                (decoder("nt"), v)
            }
            _ => {
                let c = Msg::Chal(Chal { flags: base_flags(), ..Default::default() });
                let mut raw = raw_of(&c);
                raw.fields[1].1 = list;
                (decoder("challenge"), raw.canonical())
            }
        }
    }));
    let big = Arc::new(big_msgs());
    let step = if deep { 97u64 } else { 1021 };
    let segs = Segs::new(big.iter().map(|b| (b.1.len() as u64).div_ceil(step) + 2));
    out.push(bytes_space(judge, "long messages, whole and cut", segs.len(), move |i| {
        let (s, i) = segs.find(i);
        let b = &big[s].1;
        let cut = ((i * step) as usize).min(b.len());
        (kind_decoder(big[s].0), b[..b.len() - cut].to_vec())
    }));
    out
}

// ---------------------------------------------------------------- judged decoding

fn judged(kind: Kind, b: &[u8], obs: &mut Obs) -> Res {
    let got = real::dec(kind, b);
    obs.steps(1);
    let v = judge(kind, b, got.as_ref())?;
    obs.state(&(kind, &got));
    obs.outcome(v.name());
    Ok(())
}

fn judged_space(name: &str, len: u64, case: impl Fn(u64) -> (Kind, Vec<u8>) + Send + Sync + Clone + 'static) -> Space {
    let c2 = case.clone();
    Space::new(
        name,
        len,
        move |i| {
            let (k, b) = c2(i);
            format!("{k:?} {}", show(&b))
        },
        move |i, o| {
            let (k, b) = case(i);
            judged(k, &b, o)
        },
    )
}

pub const MAXES: [fn(u16) -> u16; 4] = [|l| l, |_| 0, |_| 0xffff, |l| l.wrapping_sub(1)];

pub fn c02(deep: bool) -> Vec<Space> {
    let mut out = vec![];
    // Payload order, gaps and maximum lengths; the message is known by construction
    let msgs: Arc<Vec<Msg>> = Arc::new(base_msgs().into_iter().map(|m| m.1).collect());
    let gap_sizes: &'static [usize] = if deep { &[1, 2, 3, 17, 300] } else { &[1, 3, 300] };
    let plans: Arc<Vec<(Vec<Vec<usize>>, Vec<Vec<usize>>)>> = Arc::new(
        msgs.iter()
            .map(|m| {
                let n = descriptors(m.kind()).len();
                let mut gaps = vec![vec![0; n]];
                for g in gap_sizes {
                    for k in 0..n {
                        let mut v = vec![0; n];
                        v[k] = *g;
                        gaps.push(v);
                    }
                    gaps.push(vec![*g; n]);
                }
                (perms(n), gaps)
            })
            .collect(),
    );
    let segs = Segs::new(plans.iter().map(|(p, g)| (p.len() * g.len() * MAXES.len()) as u64));
    let lay = move |i: u64| {
        let (s, i) = segs.find(i);
        let mut m = Mix(i);
        let p = m.of(&plans[s].0).clone();
        let g = m.of(&plans[s].1).clone();
        let max = *m.of(&MAXES);
        (msgs[s].clone(), raw_of(&msgs[s]).lay(&p, &g, max))
    };
    let len = {
        let msgs: Vec<Msg> = base_msgs().into_iter().map(|m| m.1).collect();
        msgs.iter()
            .map(|m| {
                let n = descriptors(m.kind()).len();
                (perms(n).len() * (1 + gap_sizes.len() * (n + 1)) * MAXES.len()) as u64
            })
            .sum()
    };
    {
        let lay2 = lay.clone();
        out.push(
            Space::new(
                "payload orders, gaps and maximum lengths",
                len,
                move |i| format!("{}", show(&lay2(i).1)),
                move |i, o| {
                    let (want, b) = lay(i);
                    let got = real::dec(want.kind(), &b);
                    o.steps(1);
                    o.state(&b);
                    match got {
                        None => Err(format!("refused a well-formed message: {}", show(&b))),
                        Some(g) if same(&g, &want) => {
                            o.outcome("decoded");
                            Ok(())
                        }
                        Some(g) => Err(format!("decoded {g:x?}, laid out {want:x?}")),
                    }
                },
            )
            .must_see(&["decoded"]),
        );
    }
    // One descriptor: every length and offset around the whole message
    let grid: Vec<(Kind, Vec<u8>)> = if deep {
        msgs_of(&[])
    } else {
        msgs_of(&["negotiate full", "challenge full", "authenticate v1", "authenticate v2 no version", "authenticate bare"])
    };
    let grid = Arc::new(grid);
    let segs = Segs::new(grid.iter().map(|(k, b)| descriptors(*k).len() as u64 * ((b.len() + 4) as u64).pow(2)));
    out.push(
        judged_space("one descriptor, all lengths and offsets", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            let (k, b) = &grid[s];
            let mut m = Mix(i);
            let d = *m.of(descriptors(*k));
            let l = m.pick(b.len() + 4);
            let o = m.pick(b.len() + 4);
            let mut b = b.clone();
            put_desc(&mut b, d, l as u16, 0x55, o as u32);
            (*k, b)
        })
        .must_see(&["decoded", "refused"]),
    );
    let ds = DescSpace::new(msgs_of(&[]));
    let ds = Arc::new(ds);
    let ds1 = ds.clone();
    out.push(judged_space("one descriptor, extreme values, and one flag changed", ds.segs.len() * 32, move |i| ds1.flipped(i)));
    out.push(judged_space("one descriptor, extreme values", ds.segs.len(), move |i| ds.at(i)));
    let (lens, offs) = if deep {
        (vec![0, 1, 2, 4, 16, 24, 30, 0x8000, 0xffff], vec![0, 24, 63, 64, 72, 90, 101, 110, -1, -2, -3, -17, -25, 0x8000_0000, 0xffff_0001, 0xffff_ffff])
    } else {
        (vec![0, 2, 4, 16, 24, 0xffff], vec![0, 64, 72, 101, -1, -2, -17, -25, 0xffff_0001])
    };
    let dp = DescPairs::new(msgs_of(&["negotiate full", "challenge full", "authenticate v1", "authenticate v2"]), lens, offs);
    out.push(judged_space("two descriptors, overlaps and extremes", dp.segs.len(), move |i| dp.at(i)));
    // Each field takes the place of each other one
    {
        let msgs = Arc::new(msgs_of(&[]));
        let segs = Segs::new(msgs.iter().map(|(k, _)| 2u64.pow(0) * (descriptors(*k).len() as u64).pow(descriptors(*k).len() as u32)));
        out.push(judged_space("descriptors copied from each other", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            let (k, b) = &msgs[s];
            let ds = descriptors(*k);
            let mut m = Mix(i);
            let mut v = b.clone();
            for d in ds {
                let from = *m.of(ds);
                v[*d..*d + 8].copy_from_slice(&b[from..from + 8]);
            }
            (*k, v)
        }));
    }
    // Changed bytes anywhere
    {
        let msgs = Arc::new(msgs_of(&[]));
        let segs = Segs::new(msgs.iter().map(|m| m.1.len() as u64 * 256));
        out.push(judged_space("one byte changed", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            (msgs[s].0, set_byte(i, &msgs[s].1))
        }));
    }
    if deep {
        let msgs = Arc::new(msgs_of(&[]));
        let segs = Segs::new(msgs.iter().map(|m| pairs(m.1.len()) * (FEW.len() * FEW.len()) as u64));
        out.push(judged_space("two bytes changed", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            (msgs[s].0, set_pair(i, &msgs[s].1, FEW))
        }));
    }
    // Far offsets: payload behind many unused bytes
    {
        let msgs = Arc::new(base_msgs().into_iter().map(|m| m.1).collect::<Vec<_>>());
        const FAR: [usize; 9] = [0xff00, 0xfff0, 0xffff, 0x10000, 0x10001, 0x10048, 0x20000, 0x7fff, 0x8000];
        out.push(judged_space("payload at far offsets", (msgs.len() * FAR.len() * 6) as u64, move |i| {
            let mut m = Mix(i);
            let msg = m.of(&msgs).clone();
            let far = *m.of(&FAR);
            let k = m.pick(6) % descriptors(msg.kind()).len();
            let n = descriptors(msg.kind()).len();
            let mut gaps = vec![0; n];
            gaps[k] = far;
            let order: Vec<usize> = (0..n).collect();
            (msg.kind(), raw_of(&msg).lay(&order, &gaps, |l| l))
        }));
    }
    {
        let big = Arc::new(big_msgs());
        out.push(judged_space("long messages", big.len() as u64, move |i| big[i as usize].clone()));
    }
    out.push(any_field(deep));
    out
}

// ---------------------------------------------------------------- C05

pub fn c05(deep: bool) -> Vec<Space> {
    let mut out = vec![];
    // Every prefix of every layout
    let msgs: Arc<Vec<Msg>> = Arc::new(base_msgs().into_iter().map(|m| m.1).collect());
    let mut laid: Vec<(Kind, Vec<u8>)> = vec![];
    for m in msgs.iter() {
        let n = descriptors(m.kind()).len();
        let ps = if n > 2 && !deep { vec![(0..n).collect(), (0..n).rev().collect()] } else { perms(n) };
        for p in ps {
            for g in [0usize, 2] {
                laid.push((m.kind(), raw_of(m).lay(&p, &vec![g; n], |l| l)));
            }
        }
    }
    let laid = Arc::new(laid);
    let segs = Segs::new(laid.iter().map(|b| b.1.len() as u64 + 1));
    out.push(
        judged_space("prefixes", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            (laid[s].0, laid[s].1[..i as usize].to_vec())
        })
        .must_see(&["decoded", "refused"]),
    );
    // The header
    let plain: Arc<Vec<(Kind, Vec<u8>)>> = Arc::new(msgs_of(&[]));
    {
        let plain = plain.clone();
        out.push(judged_space("signature and type bytes", plain.len() as u64 * 12 * 256, move |i| {
            let (k, b) = &plain[(i / (12 * 256)) as usize];
            (*k, set_byte(i % (12 * 256), b))
        }));
    }
    {
        let plain = plain.clone();
        const ALPHA: &[u8] = &[0, 1, 2, 3, b'N', b'T', b'L', b'M', b'S', b'P', 0x20, 0xff];
        let per = 66 * (ALPHA.len() * ALPHA.len()) as u64;
        out.push(judged_space("two bytes of signature and type", plain.len() as u64 * per, move |i| {
            let (k, b) = &plain[(i / per) as usize];
            let mut h = set_pair(i % per, &b[..12], ALPHA);
            h.extend(&b[12..]);
            (*k, h)
        }));
    }
    {
        let plain = plain.clone();
        let n = plain.len() as u64;
        out.push(judged_space("type words", n * 65536 * 3, move |i| {
            let mut m = Mix(i);
            let (k, b) = m.of(&plain).clone();
            let w = m.pick(65536) as u32;
            let t = match m.pick(3) {
                0 => w,
                1 => w << 16 | u32_at(&b, 8),
                _ => w << 8,
            };
            let mut b = b.clone();
            b[8..12].copy_from_slice(&t.to_le_bytes());
            (k, b)
        }));
    }
    // Every message as every type, whole and cut
    {
        let plain = plain.clone();
        let segs = Segs::new(plain.iter().map(|b| (b.1.len() as u64 + 1) * 3));
        out.push(judged_space("messages decoded as each type", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            (KINDS[(i % 3) as usize], plain[s].1[..(i / 3) as usize].to_vec())
        }));
    }
    // Every type word of one message with every decoder: the rest may fit
    {
        let plain = plain.clone();
        let n = plain.len() as u64;
        out.push(judged_space("messages relabelled as each type", n * 5 * 3, move |i| {
            let mut m = Mix(i);
            let (_, b) = m.of(&plain).clone();
            let t = m.pick(5) as u32;
            let k = *m.of(&KINDS);
            let mut b = b.clone();
            b[8..12].copy_from_slice(&t.to_le_bytes());
            (k, b)
        }));
    }
    // Version announced or not, with every length around the fixed part
    {
        let plain = plain.clone();
        let segs = Segs::new(plain.iter().map(|b| (b.1.len() as u64 + 1) * 2));
        out.push(judged_space("prefixes without used fields", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            let (k, b) = &plain[s];
            let mut b = b.clone();
            for d in descriptors(*k) {
                put_desc(&mut b, *d, 0, 0, 0);
            }
            let at = match k {
                Kind::Neg => 12,
                Kind::Chal => 20,
                Kind::Auth => 60,
            };
            if i % 2 == 1 {
                b[at + 3] ^= 2;
            }
            b.truncate((i / 2) as usize);
            (*k, b)
        }));
    }
    // Leading bytes before the message, and a message repeated
    {
        let plain = plain.clone();
        out.push(judged_space("shifted messages", plain.len() as u64 * 32, move |i| {
            let (k, b) = &plain[(i / 32) as usize];
            let shift = (i % 32) as usize;
            let mut v = vec![0; shift / 2];
            if shift % 2 == 1 {
                v = SIG[..(shift / 2).min(8)].to_vec();
            }
            v.extend(b);
            (*k, v)
        }));
    }
    if deep {
        let plain = plain.clone();
        let segs = Segs::new(plain.iter().map(|b| pairs(b.1.len() + 1) * FEW.len() as u64));
        out.push(judged_space("prefixes with one byte changed", segs.len(), move |i| {
            let (s, i) = segs.find(i);
            let (k, b) = &plain[s];
            let (p, q) = pair_at(b.len() + 1, i / FEW.len() as u64);
            let mut v = b[..q].to_vec();
            if p < v.len() {
                v[p] = FEW[(i % FEW.len() as u64) as usize];
            }
            (*k, v)
        }));
    }
    out
}

// ---------------------------------------------------------------- C06

fn chal_with(list: Vec<u8>) -> Vec<u8> {
    let c = Msg::Chal(Chal { flags: base_flags(), name: some("S"), sc: [9; 8], ..Default::default() });
    let mut raw = raw_of(&c);
    raw.fields[1].1 = list;
    raw.canonical()
}

pub fn c06(deep: bool) -> Vec<Space> {
    let mut out = vec![];
    let pieces = Arc::new(av_pieces());
    let k = pieces.len() as u64;
    let depth = if deep { 5 } else { 4 };
    {
        let pieces = pieces.clone();
        out.push(
            judged_space(&format!("lists of up to {depth} pieces, some malformed"), seq_count(k, depth), move |i| {
                (Kind::Chal, chal_with(seq_at(k, i).iter().flat_map(|p| pieces[*p].1.clone()).collect()))
            })
            .must_see(&["decoded", "refused"]),
        );
    }
    // Well-formed lists, longer
    let letters = Arc::new(av_letters());
    let n = letters.len() as u64;
    let depth = if deep { 6 } else { 5 };
    {
        let letters = letters.clone();
        let list = move |i: u64| -> Vec<Av> {
            let mut l: Vec<Av> = seq_at(n, i).iter().map(|p| letters[*p].clone()).collect();
            l.push(Av::Eol);
            l
        };
        out.push(Space::of(&format!("terminated lists of up to {depth} pairs"), seq_count(n, depth), list, |l, o| {
            let b = chal_with(avs_bytes(l));
            o.steps(l.len() as u64);
            o.state(l);
            match real::dec(Kind::Chal, &b) {
                Some(Msg::Chal(c)) if c.infos == *l => {
                    o.outcome("decoded");
                    Ok(())
                }
                Some(Msg::Chal(c)) => Err(format!("decoded {:?}, sent {l:?}", c.infos)),
                _ => Err(format!("refused {l:?}")),
            }
        }));
    }
    // Every identifier and length at every position of a list
    {
        let base = full_infos();
        let heads: Vec<usize> = base
            .iter()
            .scan(0, |at, a| {
                let here = *at;
                *at += av_bytes(a).len();
                Some(here)
            })
            .collect();
        let bytes = avs_bytes(&base);
        let h = Arc::new((heads, bytes));
        let per = 65536u64;
        let segs = h.0.len() as u64;
        {
            let h = h.clone();
            out.push(judged_space("every identifier word at every pair", segs * per, move |i| {
                let mut b = h.1.clone();
                let at = h.0[(i / per) as usize];
                b[at..at + 2].copy_from_slice(&(i as u16).to_le_bytes());
                (Kind::Chal, chal_with(b))
            }));
        }
        {
            let h = h.clone();
            out.push(judged_space("every length word at every pair", segs * per, move |i| {
                let mut b = h.1.clone();
                let at = h.0[(i / per) as usize] + 2;
                b[at..at + 2].copy_from_slice(&(i as u16).to_le_bytes());
                (Kind::Chal, chal_with(b))
            }));
        }
        {
            let h = h.clone();
            out.push(judged_space("one byte changed", h.1.len() as u64 * 256, move |i| (Kind::Chal, chal_with(set_byte(i, &h.1)))));
        }
        {
            let h = h.clone();
            let n = h.1.len();
            out.push(judged_space("every cut of a list", n as u64 + 1, move |i| (Kind::Chal, chal_with(h.1[..i as usize].to_vec()))));
        }
        {
            let h = h.clone();
            let n = avs_bytes(&short_infos()).len();
            let alpha: &'static [u8] = if deep { BYTES } else { FEW };
            let _ = h;
            out.push(judged_space("two bytes changed", pairs(n) * (alpha.len() * alpha.len()) as u64, move |i| {
                (Kind::Chal, chal_with(set_pair(i, &avs_bytes(&short_infos()), alpha)))
            }));
        }
    }
    // Values of every length for every identifier
    {
        let lens = lens_to(if deep { 300 } else { 64 }, 65000);
        out.push(judged_space("values of every length", (13 * lens.len() * 4) as u64, move |i| {
            let mut m = Mix(i);
            let id = m.pick(13) as u16;
            let len = *m.of(&lens);
            let fill = [0u8, 1, 0x41, 0xd8][m.pick(4)];
            let mut l = raw_av(id, &vec![fill; len]);
            l.extend(raw_av(0, &[]));
            (Kind::Chal, chal_with(l))
        }));
    }
    // The field starts and ends elsewhere than the list
    {
        let bytes = Arc::new(avs_bytes(&short_infos()));
        let n = bytes.len() as u64;
        out.push(judged_space("the field covers a part of a list", (n + 2) * (n + 2), move |i| {
            let mut b = chal_with(bytes.to_vec());
            let off = u32_at(&b, 44);
            b.extend([0; 4]);
            put_desc(&mut b, 40, (i % (n + 2)) as u16, 0, off + (i / (n + 2)) as u32);
            (Kind::Chal, b)
        }));
    }
    // Lists in NTLMv2 responses keep their order as well
    {
        let letters = av_letters();
        let d = if deep { 4 } else { 3 };
        let list = move |i: u64| -> Vec<Av> {
            let mut l: Vec<Av> = seq_at(n, i).iter().map(|p| letters[*p].clone()).collect();
            l.push(Av::Eol);
            l
        };
        out.push(Space::of(&format!("lists of up to {d} pairs in an NTLMv2 response"), seq_count(n, d), list, |l, o| {
            let a = Auth { nt: Some(Nt::V2R(pattern(3), Blob { infos: l.clone(), ..blob() })), flags: base_flags(), ..Default::default() };
            let want = Msg::Auth(a);
            let got = real::dec(Kind::Auth, &encode(&want));
            o.steps(l.len() as u64);
            o.state(l);
            match got {
                Some(g) if same(&g, &want) => Ok(()),
                g => Err(format!("decoded {g:x?}, sent {want:x?}")),
            }
        }));
    }
    // Lists of any length, and what comes behind them or spoils them
    {
        let lens = text_lengths(if deep { 600 } else { 150 }, 12);
        let pieces = av_pieces();
        out.push(
            judged_space("lists by length x first pair x last piece before or behind the end", (lens.len() * 4 * 2 * (pieces.len() + 1)) as u64, move |i| {
                let mut m = Mix(i);
                let a = [name(2, ""), name(4, "a"), Av::Flags(1), Av::Time(9)][m.pick(4)].clone();
                let behind = m.flag();
                let piece = m.pick(pieces.len() + 1);
                let piece = pieces.get(piece).map_or(vec![], |p| p.1.clone());
                let n = (*m.of(&lens)).min(65_000 / av_bytes(&a).len());
                let mut l = av_bytes(&a).repeat(n);
                if !behind {
                    l.extend(&piece);
                }
                l.extend(raw_av(0, &[]));
                if behind {
                    l.extend(&piece);
                }
                (Kind::Chal, chal_with(l))
            })
            .must_see(&["decoded", "refused"]),
        );
    }
    {
        let ks: Vec<usize> = vec![64, 65, 255, 256, 257, 1000, 4096, 16382];
        out.push(Space::of(
            "long lists",
            ks.len() as u64 * 3,
            move |i| {
                let k = ks[(i / 3) as usize];
                let a = [name(2, ""), name(4, "a"), Av::Flags(1)][(i % 3) as usize].clone();
                let k = k.min((65535 - 4) / av_bytes(&a).len());
                (a, k)
            },
            |(a, k), o| {
                let mut l = vec![a.clone(); *k];
                l.push(Av::Eol);
                o.steps(1);
                match real::dec(Kind::Chal, &chal_with(avs_bytes(&l))) {
                    Some(Msg::Chal(c)) if c.infos == l => Ok(()),
                    _ => Err(format!("a list of {k} pairs {a:?} was not decoded to itself")),
                }
            },
        ));
    }
    out
}
