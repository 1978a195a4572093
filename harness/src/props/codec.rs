//! Properties of the encoders: C03, C04, C07.

use super::decode::show;
use crate::engine::*;
use crate::gen::*;
use crate::real;
use crate::spec::bit::*;
use crate::spec::*;
use std::sync::Arc;

type MsgCase = Arc<dyn Fn(u64) -> Msg + Send + Sync>;

fn case(f: impl Fn(u64) -> Msg + Send + Sync + 'static) -> MsgCase {
    Arc::new(f)
}

/// Flags that agree with the content: a version is announced exactly when there is one, and a
/// session key only travels announced.
fn agree(m: Msg) -> Msg {
    let v = bits(&[VERSION]);
    match m {
        Msg::Neg(mut n) => {
            n.flags = n.flags & !v | if n.ver.is_some() { v } else { 0 };
            Msg::Neg(n)
        }
        Msg::Chal(mut n) => {
            n.flags = n.flags & !v | if n.ver.is_some() { v } else { 0 };
            Msg::Chal(n)
        }
        Msg::Auth(mut n) => {
            n.flags = n.flags & !v | if n.ver.is_some() { v } else { 0 };
            if n.key.is_some() {
                n.flags |= bits(&[KEY_EXCH]);
            }
            // Without an NT response the flags tell the LM responses apart
            if let (Some(l), None) = (&n.lm, &n.nt) {
                n.flags = n.flags & !bits(&[NTLM]) | if l.is_v1() { bits(&[NTLM]) } else { 0 };
            }
            Msg::Auth(n)
        }
    }
}

fn opt_names() -> Vec<Option<String>> {
    let mut v = vec![None];
    v.extend(names().into_iter().map(Some));
    v
}

fn flag_words(deep: bool) -> Vec<u32> {
    let mut v = vec![base_flags(), 1, 0, u32::MAX];
    for b in 0..32 {
        v.push(base_flags() ^ 1 << b);
    }
    if deep {
        for a in 0..32 {
            for b in 0..a {
                v.push(base_flags() ^ 1 << a ^ 1 << b);
            }
        }
    }
    v
}

fn info_lists() -> Vec<Vec<Av>> {
    let mut v = vec![vec![], short_infos(), full_infos()];
    for a in av_letters() {
        v.push(vec![a, Av::Eol]);
    }
    v
}

fn long(n: usize) -> String {
    "L".repeat(n)
}
/// Text of `n` UTF-16 units with characters of all widths.
fn mixed(n: usize) -> String {
    let mut s = String::new();
    let mut left = n;
    for c in ['é', '😀', 'x', '日'].iter().cycle() {
        if left == 0 {
            break;
        }
        let c = if c.len_utf16() > left { 'y' } else { *c };
        left -= c.len_utf16();
        s.push(c);
    }
    s
}

fn some_lm(k: usize) -> Option<Lm> {
    match k {
        0 => None,
        1 => Some(Lm::V1(pattern(0x10))),
        _ => Some(Lm::V2(pattern(0x20))),
    }
}
fn some_nt(k: usize) -> Option<Nt> {
    match k {
        0 => None,
        1 => Some(Nt::V1(pattern(0x60))),
        2 => Some(Nt::V2(blob())),
        _ => Some(Nt::V2R(pattern(0x40), blob())),
    }
}

type Change = Box<dyn Fn(&mut Msg) + Send + Sync>;

/// Single changes to a message of a kind, each of one part.
fn changes(kind: Kind, deep: bool) -> Vec<Change> {
    let mut v: Vec<Change> = vec![];
    fn flags(m: &mut Msg) -> &mut u32 {
        match m {
            Msg::Neg(m) => &mut m.flags,
            Msg::Chal(m) => &mut m.flags,
            Msg::Auth(m) => &mut m.flags,
        }
    }
    for b in 0..32 {
        v.push(Box::new(move |m| *flags(m) ^= 1 << b));
    }
    for w in [0, u32::MAX, 0x5aa5_c33c] {
        v.push(Box::new(move |m| *flags(m) = w));
    }
    let vers = [None, Some(Ver { major: 0, minor: 0, build: 0, rev: 15 }), Some(Ver { major: 255, minor: 255, build: 65535, rev: 15 }), Some(Ver { major: 10, minor: 0, build: 0x5845, rev: 15 })];
    for x in vers {
        v.push(Box::new(move |m| match m {
            Msg::Neg(m) => m.ver = x.clone(),
            Msg::Chal(m) => m.ver = x.clone(),
            Msg::Auth(m) => m.ver = x.clone(),
        }));
    }
    let mut texts: Vec<Option<String>> = [None, Some(""), Some("a"), Some("A"), Some(" "), Some("ß"), Some("日本"), Some("😀"), Some("x\u{feff}"), Some("NTLMSSP")].into_iter().map(|t| t.map(String::from)).collect();
    texts.extend([15, 16, 63, 64, 127, 128, 255, 256, 1024].into_iter().step_by(if deep { 1 } else { 2 }).map(|n| Some("n".repeat(n))));
    let parts: &[fn(&mut Msg) -> &mut Option<String>] = match kind {
        Kind::Neg => &[
            |m| match m {
                Msg::Neg(m) => &mut m.domain,
                _ => unreachable!(),
            },
            |m| match m {
                Msg::Neg(m) => &mut m.ws,
                _ => unreachable!(),
            },
        ],
        Kind::Chal => &[|m| match m {
            Msg::Chal(m) => &mut m.name,
            _ => unreachable!(),
        }],
        Kind::Auth => &[
            |m| match m {
                Msg::Auth(m) => &mut m.domain,
                _ => unreachable!(),
            },
            |m| match m {
                Msg::Auth(m) => &mut m.user,
                _ => unreachable!(),
            },
            |m| match m {
                Msg::Auth(m) => &mut m.ws,
                _ => unreachable!(),
            },
        ],
    };
    for p in parts {
        for t in &texts {
            let (p, t) = (*p, t.clone());
            v.push(Box::new(move |m| *p(m) = t.clone()));
        }
    }
    /// Constant, or constant in one word
    fn patterns<const N: usize>() -> Vec<[u8; N]> {
        let mut v = vec![[0; N], [0xff; N], pattern(0x2d)];
        for b in [0, 0xff] {
            for w in 0..N / 4 {
                let mut p = pattern::<N>(0x61);
                p[4 * w..4 * w + 4].fill(b);
                v.push(p);
            }
        }
        v
    }
    let lists: Vec<Vec<Av>> = [vec![], full_infos()]
        .into_iter()
        .chain(av_letters().into_iter().chain([Av::Flags(0), Av::Chan([0; 16]), Av::Time(u64::MAX)]).map(|a| vec![a, Av::Eol]))
        .chain([16, 17, 64, 300].map(|n| (0..n).map(|k| name(1 + k % 5, "n")).chain([Av::Eol]).collect()))
        .chain([127, 128, 256, 1024].map(|n| vec![name(1, &"l".repeat(n)), Av::Eol]))
        .collect();
    if kind == Kind::Chal {
        for p in patterns::<8>() {
            v.push(Box::new(move |m| {
                if let Msg::Chal(m) = m {
                    m.sc = p
                }
            }));
        }
        for l in lists {
            v.push(Box::new(move |m| {
                if let Msg::Chal(m) = m {
                    m.infos = l.clone()
                }
            }));
        }
    } else if kind == Kind::Auth {
        macro_rules! auth {
            ($m:ident => $e:expr) => {
                v.push(Box::new(move |m| {
                    if let Msg::Auth($m) = m {
                        $e
                    }
                }))
            };
        }
        for p in patterns::<16>() {
            auth!(m => m.mic = p);
            auth!(m => m.key = Some(p));
        }
        auth!(m => m.key = None);
        for k in 0..3 {
            auth!(m => m.lm = some_lm(k));
        }
        for k in 0..4 {
            auth!(m => m.nt = some_nt(k));
        }
        for p in patterns::<24>() {
            auth!(m => m.lm = Some(Lm::V2(p)));
            auth!(m => { m.lm = Some(Lm::V1(p)); m.nt = Some(Nt::V1(pattern(1))) });
            auth!(m => m.nt = Some(Nt::V1(p)));
        }
        for l in lists {
            auth!(m => m.nt = Some(Nt::V2R(pattern(0x40), Blob { infos: l.clone(), ..blob() })));
        }
        for t in [0, 1, u64::MAX, 0x8000_0000] {
            auth!(m => m.nt = Some(Nt::V2R(pattern(0x40), Blob { time: t, ..blob() })));
        }
        for p in patterns::<8>() {
            auth!(m => m.nt = Some(Nt::V2R(pattern(0x40), Blob { cc: p, ..blob() })));
        }
    }
    v
}

/// Spaces of messages a builder can make.
fn messages(deep: bool) -> Vec<(String, u64, MsgCase)> {
    let mut out: Vec<(String, u64, MsgCase)> = vec![];
    let on = Arc::new(opt_names());
    let fw = Arc::new(flag_words(deep));
    {
        let (on, fw) = (on.clone(), fw.clone());
        out.push((
            "NEGOTIATE: names, version and flags".into(),
            (on.len() * on.len() * 2 * fw.len()) as u64,
            case(move |i| {
                let mut m = Mix(i);
                agree(Msg::Neg(Neg {
                    domain: m.of(&on).clone(),
                    ws: m.of(&on).clone(),
                    ver: m.flag().then(ver),
                    flags: *m.of(&fw),
                }))
            }),
        ));
    }
    {
        let (on, fw) = (on.clone(), fw.clone());
        let lists = info_lists();
        out.push((
            "CHALLENGE: name, target information, version and flags".into(),
            (on.len() * lists.len() * 2 * fw.len()) as u64,
            case(move |i| {
                let mut m = Mix(i);
                agree(Msg::Chal(Chal {
                    name: m.of(&on).clone(),
                    infos: m.of(&lists).clone(),
                    ver: m.flag().then(ver),
                    flags: *m.of(&fw),
                    sc: pattern(0x81),
                }))
            }),
        ));
    }
    {
        let few: Vec<Option<String>> = vec![None, some(""), some("A"), some("é😀")];
        let fw = fw.clone();
        out.push((
            "AUTHENTICATE: presence of every part and flags".into(),
            (3 * 4 * 4 * 4 * 4 * 2 * 2 * fw.len()) as u64,
            case(move |i| {
                let mut m = Mix(i);
                agree(Msg::Auth(Auth {
                    lm: some_lm(m.pick(3)),
                    nt: some_nt(m.pick(4)),
                    domain: m.of(&few).clone(),
                    user: m.of(&few).clone(),
                    ws: m.of(&few).clone(),
                    key: m.flag().then(|| pattern(0xc3)),
                    ver: m.flag().then(ver),
                    flags: *m.of(&fw),
                    mic: pattern(0xe5),
                }))
            }),
        ));
    }
    {
        let on = on.clone();
        let n = on.len();
        out.push((
            "AUTHENTICATE: names".into(),
            (n * n * n * 2) as u64,
            case(move |i| {
                let mut m = Mix(i);
                agree(Msg::Auth(Auth {
                    lm: some_lm(2),
                    nt: some_nt(3),
                    domain: m.of(&on).clone(),
                    user: m.of(&on).clone(),
                    ws: m.of(&on).clone(),
                    key: m.flag().then(|| pattern(0xc3)),
                    flags: base_flags(),
                    ..Default::default()
                }))
            }),
        ));
    }
    let letters = Arc::new(av_letters());
    let k = letters.len() as u64;
    let depth = if deep { 5 } else { 4 };
    {
        let letters = letters.clone();
        out.push((
            format!("CHALLENGE: target information of up to {depth} pairs"),
            seq_count(k, depth),
            case(move |i| {
                let mut infos: Vec<Av> = seq_at(k, i).iter().map(|p| letters[*p].clone()).collect();
                if !infos.is_empty() {
                    infos.push(Av::Eol);
                }
                agree(Msg::Chal(Chal { name: some("N"), infos, ver: Some(ver()), flags: base_flags(), sc: pattern(0x81) }))
            }),
        ));
    }
    {
        let letters = letters.clone();
        let depth = depth - 1;
        let n = seq_count(k + 1, depth);
        out.push((
            format!("AUTHENTICATE: NTLMv2 responses with up to {depth} pairs, end of list anywhere"),
            n * 2,
            case(move |i| {
                let infos = seq_at(k + 1, i % n).iter().map(|p| letters.get(*p).cloned().unwrap_or(Av::Eol)).collect();
                let b = Blob { infos, ..blob() };
                let nt = if i < n { Nt::V2(b) } else { Nt::V2R(pattern(0x40), b) };
                agree(Msg::Auth(Auth { lm: some_lm(2), nt: Some(nt), user: some("U"), flags: base_flags(), ..Default::default() }))
            }),
        ));
    }
    // Lengths
    out.push((
        "CHALLENGE: names of every length".into(),
        32768 * 2,
        case(|i| {
            let n = (i / 2) as usize;
            let name = Some(if i % 2 == 0 { long(n) } else { mixed(n) });
            agree(Msg::Chal(Chal { name, infos: short_infos(), ver: None, flags: base_flags(), sc: pattern(0x81) }))
        }),
    ));
    out.push((
        "NEGOTIATE: domains of every length".into(),
        65536,
        case(|i| agree(Msg::Neg(Neg { domain: Some(long(i as usize)), ws: some("WS"), ver: None, flags: base_flags() }))),
    ));
    if deep {
        out.push((
            "NEGOTIATE: workstations of every length".into(),
            65536,
            case(|i| agree(Msg::Neg(Neg { domain: some("D"), ws: Some(long(i as usize)), ver: Some(ver()), flags: base_flags() }))),
        ));
    }
    {
        let step = if deep { 1 } else { 7 };
        let n: u64 = 32767 / step + 1;
        out.push((
            "AUTHENTICATE: names of every length".into(),
            n * 3,
            case(move |i| {
                let s = Some(mixed((i / 3 * step) as usize));
                let mut a = Auth { lm: some_lm(1), nt: some_nt(1), flags: base_flags(), key: Some(pattern(1)), ..Default::default() };
                match i % 3 {
                    0 => a.domain = s,
                    1 => a.user = s,
                    _ => a.ws = s,
                }
                agree(Msg::Auth(a))
            }),
        ));
    }
    out.push((
        "NEGOTIATE and AUTHENTICATE: names of every length up to 1040, next to others or alone".into(),
        1041 * 5 * 3 * 2,
        case(|i| {
            let mut m = Mix(i);
            let which = m.pick(5);
            let unit = m.pick(3);
            let others = m.flag();
            let n = m.0 as usize;
            let s = Some(match unit {
                0 => long(n),
                1 => mixed(n),
                _ => "日".repeat(n),
            });
            let o = others.then(|| "Other".to_string());
            agree(match which {
                0 => Msg::Neg(Neg { domain: s.map(|_| long(n)), ws: o, ver: None, flags: base_flags() }),
                1 => Msg::Neg(Neg { domain: o, ws: s.map(|_| long(n)), ver: Some(ver()), flags: base_flags() }),
                k => {
                    let mut a = Auth { flags: base_flags(), domain: o.clone(), user: o.clone(), ws: o, ..Default::default() };
                    if others {
                        (a.lm, a.nt, a.key, a.ver) = (some_lm(2), some_nt(3), Some(pattern(1)), Some(ver()));
                    }
                    match k {
                        2 => a.domain = s,
                        3 => a.user = s,
                        _ => a.ws = s,
                    }
                    Msg::Auth(a)
                }
            })
        }),
    ));
    const SIZES: [usize; 9] = [0, 1, 127, 128, 16383, 16384, 21845, 32766, 32767];
    out.push((
        "AUTHENTICATE: payloads around and above 64 KiB".into(),
        (SIZES.len() * SIZES.len() * SIZES.len() * 4) as u64,
        case(|i| {
            let mut m = Mix(i);
            let mut a = Auth {
                domain: Some(long(*m.of(&SIZES))),
                user: Some(mixed(*m.of(&SIZES))),
                ws: Some(long(*m.of(&SIZES))),
                key: Some(pattern(9)),
                flags: base_flags(),
                ..Default::default()
            };
            let big = || Blob { infos: vec![name(1, &long(32000)), Av::Eol], ..blob() };
            (a.lm, a.nt) = match m.pick(4) {
                0 => (None, None),
                1 => (some_lm(1), some_nt(1)),
                2 => (some_lm(2), Some(Nt::V2R(pattern(5), big()))),
                _ => (some_lm(2), Some(Nt::V2(big()))),
            };
            agree(Msg::Auth(a))
        }),
    ));
    out.push((
        "CHALLENGE: payloads around and above 64 KiB".into(),
        (SIZES.len() * 6) as u64,
        case(|i| {
            let mut m = Mix(i);
            let name_ = Some(long(*m.of(&SIZES)));
            let infos = match m.pick(6) {
                0 => vec![],
                1 => vec![name(1, &long(32763)), Av::Eol],
                2 => vec![name(1, &mixed(16000)), name(2, &long(16000)), Av::Eol],
                3 => {
                    let mut l = vec![name(2, ""); 16382];
                    l.push(Av::Eol);
                    l
                }
                4 => {
                    let mut l = vec![host(); 1259];
                    l.push(Av::Eol);
                    l
                }
                _ => vec![Av::Chan(pattern(3)), name(5, &long(30000)), Av::Eol],
            };
            agree(Msg::Chal(Chal { name: name_, infos, ver: Some(ver()), flags: base_flags(), sc: pattern(0x81) }))
        }),
    ));
    out.push((
        "NEGOTIATE: payloads around and above 64 KiB".into(),
        144,
        case(|i| {
            const L: [usize; 6] = [0, 1, 32768, 65533, 65534, 65535];
            let mut m = Mix(i);
            agree(Msg::Neg(Neg {
                domain: Some(long(*m.of(&L))),
                ws: Some(long(*m.of(&L))),
                ver: m.flag().then(ver),
                flags: base_flags(),
            }))
        }),
    ));
    // Values of the fixed parts
    out.push((
        "every byte value in the fixed-size values".into(),
        (8 + 16 + 16 + 24 + 24 + 8 + 16) * 256,
        case(|i| {
            let v = i as u8;
            let mut p = (i / 256) as usize;
            let mut a = Auth {
                lm: some_lm(2),
                nt: some_nt(3),
                key: Some([0; 16]),
                flags: base_flags(),
                mic: [0; 16],
                ..Default::default()
            };
            macro_rules! take {
                ($n:expr, $k:ident, $do:block) => {
                    if p < $n {
                        let $k = p;
                        $do
                        return agree(Msg::Auth(a));
                    }
                    #[allow(unused_assignments)]
                    {
                        p -= $n;
                    }
                };
            }
            if p < 8 {
                let mut sc = [0; 8];
                sc[p] = v;
                return agree(Msg::Chal(Chal { flags: base_flags(), sc, ..Default::default() }));
            }
            p -= 8;
            take!(16, k, { a.mic[k] = v });
            take!(16, k, { a.key.as_mut().unwrap()[k] = v });
            take!(24, k, {
                let mut b = [0; 24];
                b[k] = v;
                a.lm = Some(Lm::V2(b));
            });
            take!(24, k, {
                let mut b = [0; 24];
                b[k] = v;
                a.lm = Some(Lm::V1([v; 24]));
                a.nt = Some(Nt::V1(b));
            });
            take!(8, k, {
                let mut cc = [0; 8];
                cc[k] = v;
                a.nt = Some(Nt::V2(Blob { cc, time: (v as u64) << (8 * k), infos: short_infos() }));
            });
            take!(16, k, {
                let mut b = [0x77; 16];
                b[k] = v;
                a.nt = Some(Nt::V2R(b, blob()));
            });
            unreachable!()
        }),
    ));
    // Whatever two or three parts of a message are at once
    for (what, base) in base_msgs().into_iter().filter(|m| ["negotiate full", "challenge full", "authenticate v1", "authenticate v2"].contains(&m.0)) {
        let all = changes(base.kind(), deep);
        let k = 3;
        let sets = subsets(all.len(), k);
        out.push((
            format!("{what} with every {k} or fewer of {} changes", all.len()),
            sets.len() as u64,
            case(move |i| {
                let mut m = base.clone();
                for x in &sets[i as usize] {
                    all[*x as usize](&mut m);
                }
                agree(m)
            }),
        ));
    }
    out.push((
        "every version build number and version byte".into(),
        65536 * 3,
        case(|i| {
            let w = (i / 3) as u16;
            let ver = Some(Ver { major: w as u8, minor: (w >> 8) as u8, build: w.rotate_left(5), rev: 15 });
            match i % 3 {
                0 => agree(Msg::Neg(Neg { ver, flags: 1, ..Default::default() })),
                1 => agree(Msg::Chal(Chal { ver, flags: 1, name: some("n"), ..Default::default() })),
                _ => agree(Msg::Auth(Auth { ver, flags: 1, user: some("n"), ..Default::default() })),
            }
        }),
    ));
    out
}

/// Equal in every transmitted part; an LM response next to a foreign NT response has no kind.
fn same_content(a: &Msg, b: &Msg) -> bool {
    if let (Msg::Auth(x), Msg::Auth(y)) = (a, b) {
        if let (Some(l), Some(n)) = (&x.lm, &x.nt) {
            if l.is_v1() != matches!(n, Nt::V1(_)) {
                if y.lm.as_ref().map(|l| l.bytes()) != Some(l.bytes()) {
                    return false;
                }
                return same(&Msg::Auth(Auth { lm: None, ..x.clone() }), &Msg::Auth(Auth { lm: None, ..y.clone() }));
            }
        }
    }
    same(a, b)
}

fn cut(s: String) -> String {
    s.chars().take(3000).collect()
}

pub fn c03(deep: bool) -> Vec<Space> {
    messages(deep)
        .into_iter()
        .map(|(name, len, f)| {
            Space::of(
                &name,
                len,
                move |i| f(i),
                |m, o| {
                    let (b, _) = real::enc(m);
                    let got = real::dec(m.kind(), &b);
                    o.steps(2);
                    o.state(m);
                    match got {
                        Some(g) if same_content(m, &g) => {
                            // Once more: what was decoded encodes to the same bytes
                            o.outcome("round trip");
                            Ok(())
                        }
                        Some(g) => Err(cut(format!("decoded {g:x?} from {}, encoded {m:x?}", show(&b)))),
                        None => Err(cut(format!("does not decode: {}", show(&b)))),
                    }
                },
            )
            .must_see(&["round trip"])
        })
        .collect()
}

fn layout(m: &Msg, b: &[u8], count: usize) -> Res {
    if count != b.len() {
        return Err(format!("reports {count} bytes, produced {}", b.len()));
    }
    let has_ver = match m {
        Msg::Neg(n) => n.ver.is_some(),
        Msg::Chal(n) => n.ver.is_some(),
        Msg::Auth(n) => n.ver.is_some(),
    };
    let fixed = match m.kind() {
        Kind::Neg => 32,
        Kind::Chal => 48,
        Kind::Auth => 80,
    } + if has_ver { 8 } else { 0 };
    if b.len() < fixed {
        return Err(format!("only {} bytes", b.len()));
    }
    let mut regions = vec![];
    for d in descriptors(m.kind()) {
        let (len, max, off) = (u16_at(b, *d) as usize, u16_at(b, d + 2) as usize, u32_at(b, d + 4) as usize);
        if len != max {
            return Err(format!("descriptor at {d}: length {len}, maximum length {max}"));
        }
        if len > 0 {
            regions.push((off, off + len));
        }
    }
    regions.sort();
    let mut at = fixed;
    for (from, to) in regions {
        if from != at {
            return Err(format!("a field begins at {from}, expected at {at} (fixed part: {fixed} bytes)"));
        }
        at = to;
    }
    if at != b.len() {
        return Err(format!("fields end at {at}, the message at {}", b.len()));
    }
    // The fixed part, byte by byte, apart from the descriptors
    let want = raw_of(m).fixed;
    for (k, w) in want.iter().enumerate() {
        if descriptors(m.kind()).iter().any(|d| (*d..*d + 8).contains(&k)) {
            continue;
        }
        if b[k] != *w {
            return Err(format!("byte {k} is {:#x}, expected {w:#x}", b[k]));
        }
    }
    // And each field
    let r = Reader { b };
    for (d, w) in raw_of(m).fields {
        if r.field(d) != Some(&w[..]) {
            return Err(cut(format!("field at {d} is {:x?}, expected {w:x?}", r.field(d))));
        }
    }
    Ok(())
}

pub fn c04(deep: bool) -> Vec<Space> {
    let mut out: Vec<Space> = messages(deep)
        .into_iter()
        .map(|(name, len, f)| {
            Space::of(
                &name,
                len,
                move |i| f(i),
                |m, o| {
                    let (b, count) = real::enc(m);
                    o.steps(1);
                    o.state(m);
                    layout(m, &b, count).map_err(|e| cut(format!("{e}: {}", show(&b))))?;
                    match parse(m.kind(), &b) {
                        Ok(g) if same_content(m, &g) => {
                            o.outcome("recovered");
                            Ok(())
                        }
                        Ok(g) => Err(cut(format!("an independent decoder reads {g:x?} from {}", show(&b)))),
                        Err(e) => Err(cut(format!("an independent decoder refuses {}: {e}", show(&b)))),
                    }
                },
            )
            .must_see(&["recovered"])
        })
        .collect();
    // Messages decoded from other layouts are encoded canonically
    let msgs: Arc<Vec<Msg>> = Arc::new(base_msgs().into_iter().map(|m| m.1).collect());
    let plans: Arc<Vec<Vec<Vec<usize>>>> = Arc::new(msgs.iter().map(|m| perms(descriptors(m.kind()).len())).collect());
    let segs = Segs::new(plans.iter().map(|p| p.len() as u64 * 4));
    let (m2, p2) = (msgs, plans);
    out.push(
        Space::of(
            "decoded from other layouts",
            segs.len(),
            move |i| {
                let (s, i) = segs.find(i);
                let m = &m2[s];
                let p = &p2[s][(i / 4) as usize];
                (m.clone(), raw_of(m).lay(p, &vec![(i % 4) as usize; p.len()], |_| 0xffff))
            },
            |(m, b), o| {
                let (e, count) = match m.kind() {
                    Kind::Neg => {
                        http_ntlm::verif::negotiate::decode(b).map(|v| http_ntlm::verif::negotiate::encode(&v.0))
                    }
                    Kind::Chal => {
                        http_ntlm::verif::challenge::decode(b).map(|v| http_ntlm::verif::challenge::encode(&v.0))
                    }
                    Kind::Auth => {
                        http_ntlm::verif::authenticate::decode(b).map(|v| http_ntlm::verif::authenticate::encode(&v.0))
                    }
                }
                .ok_or("does not decode")?;
                o.steps(2);
                o.state(b);
                layout(m, &e, count).map_err(|x| format!("{x}: {}", show(&e)))?;
                o.outcome("re-encoded");
                Ok(())
            },
        )
        .must_see(&["re-encoded"]),
    );
    out
}

// ---------------------------------------------------------------- C07

/// Where names are sent.
const PLACES: usize = 16;

fn av_id(place: usize) -> u16 {
    [1, 2, 3, 4, 5, 9][(place - 4) % 6]
}

fn place_kind(place: usize) -> Kind {
    match place {
        0 | 4..=9 => Kind::Chal,
        _ => Kind::Auth,
    }
}

fn with_name(place: usize, s: &str) -> Msg {
    let f = base_flags() & !bits(&[KEY_EXCH]);
    let n = Some(s.to_string());
    match place {
        0 => Msg::Chal(Chal { name: n, flags: f, ..Default::default() }),
        1 => Msg::Auth(Auth { domain: n, flags: f, ..Default::default() }),
        2 => Msg::Auth(Auth { user: n, flags: f, ..Default::default() }),
        3 => Msg::Auth(Auth { ws: n, flags: f, ..Default::default() }),
        4..=9 => Msg::Chal(Chal { infos: vec![name(av_id(place), s), Av::Eol], flags: f, ..Default::default() }),
        _ => Msg::Auth(Auth {
            nt: Some(Nt::V2R(pattern(7), Blob { infos: vec![name(av_id(place), s), Av::Eol], ..blob() })),
            flags: f,
            ..Default::default()
        }),
    }
}

/// A message with these bytes as the name.
fn raw_name(place: usize, value: &[u8]) -> (Kind, Vec<u8>) {
    let m = with_name(place, "");
    let mut r = raw_of(&m);
    let list = || {
        let mut l = raw_av(av_id(place), value);
        l.extend(raw_av(0, &[]));
        l
    };
    let (field, data) = match place {
        0 => (0, value.to_vec()),
        1 => (2, value.to_vec()),
        2 => (3, value.to_vec()),
        3 => (4, value.to_vec()),
        4..=9 => (1, list()),
        _ => {
            let mut v: Vec<u8> = pattern::<16>(7).to_vec();
            v.extend(blob_bytes(&Blob { infos: vec![], ..blob() }));
            v.extend(list());
            v.extend([0; 4]);
            (1, v)
        }
    };
    r.fields[field].1 = data;
    (m.kind(), r.canonical())
}

fn name_trip(place: usize, s: &str, o: &mut Obs) -> Res {
    let m = with_name(place, s);
    let (b, _) = real::enc(&m);
    o.steps(2);
    let r = Reader { b: &b };
    for (d, w) in raw_of(&m).fields {
        if r.field(d) != Some(&w[..]) {
            return Err(cut(format!("{s:?} is sent as {:x?}, expected {w:x?}", r.field(d))));
        }
    }
    match real::dec(place_kind(place), &b) {
        Some(g) if same(&g, &m) => {
            o.outcome("kept");
            Ok(())
        }
        Some(g) => Err(cut(format!("{s:?} comes back as {g:x?}"))),
        None => Err(cut(format!("{s:?} does not decode: {}", show(&b)))),
    }
}

fn raw_space(name: &str, len: u64, f: impl Fn(u64) -> (usize, Vec<u8>) + Send + Sync + Clone + 'static) -> Space {
    let g = f.clone();
    Space::new(
        name,
        len,
        move |i| {
            let (p, v) = g(i);
            format!("place {p} value {}", show(&v))
        },
        move |i, o| {
            let (p, v) = f(i);
            let (k, b) = raw_name(p, &v);
            let got = real::dec(k, &b);
            o.steps(1);
            o.state(&(p, &got));
            let verdict = judge(k, &b, got.as_ref())?;
            o.outcome(verdict.name());
            Ok(())
        },
    )
}

pub fn c07(deep: bool) -> Vec<Space> {
    let mut out = vec![];
    {
        let places: Vec<usize> = if deep { (0..PLACES).collect() } else { vec![0, 2, 6, 13] };
        let n = places.len() as u64;
        out.push(
            Space::of(
                "every character in a name",
                (SCALARS - 1) * n,
                move |i| {
                    let c = scalar(i / n + 1);
                    (places[(i % n) as usize], format!("a{c}"), c)
                },
                |(p, s, c), o| {
                    o.state_hash(*c as u64 | (*p as u64) << 32);
                    name_trip(*p, s, o)
                },
            )
            .must_see(&["kept"]),
        );
        out.push(Space::of(
            "every character alone in a name",
            SCALARS - 1,
            move |i| scalar(i + 1),
            |c, o| {
                o.state_hash(*c as u64);
                name_trip(0, &c.to_string(), o)
            },
        ));
    }
    {
        const LETTERS: [char; 14] =
            ['a', '\r', '\n', 'é', '\u{7f}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{feff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{1}'];
        let k = LETTERS.len() as u64;
        let depth = if deep { 5 } else { 4 };
        let n = seq_count(k, depth);
        out.push(
            Space::of(
                &format!("strings of up to {depth} characters of all widths"),
                n * PLACES as u64,
                move |i| {
                    let s: String = seq_at(k, i % n).iter().map(|p| LETTERS[*p]).collect();
                    ((i / n) as usize, s)
                },
                |(p, s), o| {
                    o.state(&(p, s));
                    name_trip(*p, s, o)
                },
            )
            .must_see(&["kept"]),
        );
    }
    {
        const UNITS: [u16; 14] = [0, 0x0d, 0x0a, 0x61, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0xfeff];
        let k = UNITS.len() as u64;
        let depth = if deep { 6 } else { 4 };
        let places: Vec<usize> = if deep { vec![0, 1, 2, 3, 4, 8, 11] } else { (0..PLACES).collect() };
        let n = seq_count(k, depth);
        let np = places.len() as u64;
        out.push(
            raw_space(&format!("sequences of up to {depth} units, well formed or not"), n * np * 2, move |i| {
                let mut m = Mix(i);
                let odd = m.flag();
                let p = *m.of(&places);
                let mut v: Vec<u8> = seq_at(k, m.0).iter().flat_map(|p| UNITS[*p].to_le_bytes()).collect();
                if odd {
                    v.push(0x62);
                }
                (p, v)
            })
            .must_see(&["decoded", "refused"]),
        );
    }
    out.push(raw_space("every unit alone and between letters", 65536 * PLACES as u64 * 2, |i| {
        let u = (i as u16).to_le_bytes();
        let p = (i / 65536) as usize;
        (p / 2, if p % 2 == 0 { u.to_vec() } else { vec![b'a', 0, u[0], u[1], b'b', 0] })
    }));
    {
        let places: Vec<usize> = if deep { (0..PLACES).collect() } else { vec![0] };
        out.push(raw_space("every pair of surrogates in either order", 2048 * 2048 * places.len() as u64, move |i| {
            let (a, b) = (0xd800 + (i % 2048) as u16, 0xd800 + (i / 2048 % 2048) as u16);
            let mut v = a.to_le_bytes().to_vec();
            v.extend(b.to_le_bytes());
            (places[(i / (2048 * 2048)) as usize], v)
        }));
    }
    {
        // A special unit at every position of a long name
        const SPECIAL: [&[u16]; 7] = [&[0], &[0xd83d, 0xde00], &[0xd83d], &[0xde00], &[0xd83d, 0x61], &[0xde00, 0xd83d], &[0xffff]];
        let max: u64 = if deep { 2050 } else { 300 };
        out.push(raw_space("a special unit behind every number of letters", max * 7 * 2 * 4, move |i| {
            let mut m = Mix(i);
            let s = *m.of(&SPECIAL);
            let tail = m.flag();
            let p = [0, 2, 7, 12][m.pick(4)];
            let mut v = [b'q', 0].repeat(m.0 as usize);
            v.extend(s.iter().flat_map(|u| u.to_le_bytes()));
            if tail {
                v.extend([b'z', 0]);
            }
            (p, v)
        }));
    }
    {
        // A special unit at a place of a larger name, and names of special units, in step with nothing
        const SPECIAL: [&[u16]; 7] = [&[0], &[0xd83d, 0xde00], &[0xd83d], &[0xde00], &[0xd83d, 0x61], &[0xde00, 0xd83d], &[0xffff]];
        let lens = text_lengths(0, 14);
        out.push(raw_space("a special unit behind many letters, or many of them", lens.len() as u64 * 7 * 6 * 4, move |i| {
            let mut m = Mix(i);
            let s = *m.of(&SPECIAL);
            let form = m.pick(6);
            let p = [0, 2, 7, 12][m.pick(4)];
            let n = *m.of(&lens);
            let special: Vec<u8> = s.iter().flat_map(|u| u.to_le_bytes()).collect();
            let mut v = [b'q', 0].repeat(if form < 4 { n } else { form - 4 });
            let times = if form < 4 { 1 } else { n / s.len() };
            v.extend(special.repeat(times));
            if form < 4 {
                v.extend([b'z', 0].repeat([0, 1, 40, 3000][form]));
            }
            // What fits into the field next to the rest of it
            v.truncate(65_000);
            (p, v)
        }));
        const UNITS: [&str; 6] = ["é", "日", "😀", "x😀", "😀x", "e\u{301}"];
        let lens = text_lengths(if deep { 1100 } else { 140 }, 14);
        out.push(Space::of(
            "names of special characters by length, behind none to two letters",
            (lens.len() * UNITS.len() * 3 * PLACES) as u64,
            move |i| {
                let mut m = Mix(i);
                let p = m.pick(PLACES);
                let unit = *m.of(&UNITS);
                let lead = m.pick(3);
                let n = *m.of(&lens);
                let s: String = "q".repeat(lead).chars().chain(unit.chars().cycle().take(n)).collect();
                // What fits into a field next to the rest of it
                let mut units = 0;
                let s = s.chars().take_while(|c| { units += c.len_utf16(); units < 32_700 }).collect();
                (p, s)
            },
            |(p, s): &(usize, String), o| {
                o.state(&(p, s));
                name_trip(*p, s, o)
            },
        ));
    }
    {
        const L: [usize; 10] = [255, 256, 257, 1023, 1024, 16383, 16384, 32765, 32766, 32767];
        out.push(Space::of(
            "long names",
            (L.len() * 4 * PLACES) as u64,
            move |i| {
                let mut m = Mix(i);
                let n = *m.of(&L);
                let p = m.pick(PLACES);
                // A pair of a list has a head, the list an end, the response a proof and 28 bytes
                let n = if p < 4 { n } else { n.min(32767 - 4 - 24 * (p >= 10) as usize) };
                let s = match m.pick(4) {
                    0 => long(n),
                    1 => mixed(n),
                    2 => format!("{}é", long(n - 1)),
                    _ => format!("{}😀", long(n - 2)),
                };
                (p, s)
            },
            |(p, s), o| {
                o.state(&(p, s));
                name_trip(*p, s, o)
            },
        ));
    }
    {
        let w = dictionary();
        out.push(Space::of(
            "meaningful words, two in a row, in every place",
            (w.len() * (w.len() + 1) * PLACES) as u64,
            move |i| {
                let mut m = Mix(i);
                let p = m.pick(PLACES);
                let first = *m.of(w);
                let k = m.0 as usize;
                (p, if k == 0 { first.to_string() } else { format!("{first}{}", w[k - 1]) })
            },
            |(p, s), o| {
                o.state(&(p, s));
                name_trip(*p, s, o)
            },
        ));
    }
    {
        // Neighbouring fields do not run into each other
        let ns = names();
        let n = ns.len();
        out.push(Space::of(
            "names next to each other",
            (n * n * n) as u64,
            move |i| {
                let mut m = Mix(i);
                (m.of(&ns).clone(), m.of(&ns).clone(), m.of(&ns).clone())
            },
            |(a, b, c), o| {
                let m = Msg::Auth(Auth {
                    domain: Some(a.clone()),
                    user: Some(b.clone()),
                    ws: Some(c.clone()),
                    flags: 1,
                    ..Default::default()
                });
                o.steps(2);
                o.state(&(a, b, c));
                match real::dec(Kind::Auth, &real::enc(&m).0) {
                    Some(g) if same(&g, &m) => Ok(()),
                    g => Err(cut(format!("{m:?} comes back as {g:?}"))),
                }
            },
        ));
    }
    out
}
