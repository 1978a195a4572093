//! Reference model of the MS-NLMP messages: values, an encoder for arbitrary payload layouts and a
//! decoder, written from the specification and independent of the code under test.

use std::hash::{Hash, Hasher};

pub const SIG: &[u8; 8] = b"NTLMSSP\0";

pub mod bit {
    pub const N56: u32 = 31;
    pub const KEY_EXCH: u32 = 30;
    pub const N128: u32 = 29;
    pub const VERSION: u32 = 25;
    pub const TARGET_INFO: u32 = 23;
    pub const NON_NT: u32 = 22;
    pub const IDENTIFY: u32 = 20;
    pub const ESS: u32 = 19;
    pub const TYPE_SERVER: u32 = 17;
    pub const TYPE_DOMAIN: u32 = 16;
    pub const ALWAYS_SIGN: u32 = 15;
    pub const WS_SUPPLIED: u32 = 13;
    pub const DOMAIN_SUPPLIED: u32 = 12;
    pub const ANONYMOUS: u32 = 11;
    pub const NTLM: u32 = 9;
    pub const LM_KEY: u32 = 7;
    pub const DATAGRAM: u32 = 6;
    pub const SEAL: u32 = 5;
    pub const SIGN: u32 = 4;
    pub const REQUEST_TARGET: u32 = 2;
    pub const OEM: u32 = 1;
    pub const UNICODE: u32 = 0;
    pub const RESERVED: [u32; 10] = [28, 27, 26, 24, 21, 18, 14, 10, 8, 3];
}
use bit::*;

pub fn has(flags: u32, b: u32) -> bool {
    flags >> b & 1 == 1
}
pub fn bits(l: &[u32]) -> u32 {
    l.iter().fold(0, |a, b| a | 1 << b)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ver {
    pub major: u8,
    pub minor: u8,
    pub build: u16,
    pub rev: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Av {
    Eol,
    /// Identifier 1, 2, 3, 4, 5 or 9
    Name(u16, String),
    Flags(u32),
    Time(u64),
    Host { size: u32, z4: u32, custom: [u8; 8], machine: [u8; 32] },
    Chan([u8; 16]),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Neg {
    pub flags: u32,
    pub domain: Option<String>,
    pub ws: Option<String>,
    pub ver: Option<Ver>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Chal {
    pub flags: u32,
    pub name: Option<String>,
    pub sc: [u8; 8],
    pub infos: Vec<Av>,
    pub ver: Option<Ver>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Lm {
    V1([u8; 24]),
    V2([u8; 24]),
}
impl Lm {
    pub fn bytes(&self) -> &[u8; 24] {
        match self {
            Lm::V1(b) | Lm::V2(b) => b,
        }
    }
    pub fn is_v1(&self) -> bool {
        matches!(self, Lm::V1(_))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Blob {
    pub time: u64,
    pub cc: [u8; 8],
    pub infos: Vec<Av>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Nt {
    V1([u8; 24]),
    /// The blob alone
    V2(Blob),
    /// Proof, blob and reserved zeros: the NTLMv2 response of MS-NLMP
    V2R([u8; 16], Blob),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Auth {
    pub lm: Option<Lm>,
    pub nt: Option<Nt>,
    pub domain: Option<String>,
    pub user: Option<String>,
    pub ws: Option<String>,
    pub key: Option<[u8; 16]>,
    pub flags: u32,
    pub ver: Option<Ver>,
    pub mic: [u8; 16],
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Msg {
    Neg(Neg),
    Chal(Chal),
    Auth(Auth),
}

impl Msg {
    pub fn kind(&self) -> Kind {
        match self {
            Msg::Neg(_) => Kind::Neg,
            Msg::Chal(_) => Kind::Chal,
            Msg::Auth(_) => Kind::Auth,
        }
    }
    pub fn neg(&self) -> &Neg {
        match self {
            Msg::Neg(n) => n,
            _ => panic!("not a NEGOTIATE"),
        }
    }
    pub fn chal(&self) -> &Chal {
        match self {
            Msg::Chal(n) => n,
            _ => panic!("not a CHALLENGE"),
        }
    }
    pub fn auth(&self) -> &Auth {
        match self {
            Msg::Auth(n) => n,
            _ => panic!("not an AUTHENTICATE"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Neg,
    Chal,
    Auth,
}
pub const KINDS: [Kind; 3] = [Kind::Neg, Kind::Chal, Kind::Auth];

// ---------------------------------------------------------------- encoding

pub fn utf16(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for c in s.chars() {
        let c = c as u32;
        if c < 0x10000 {
            v.extend((c as u16).to_le_bytes());
        } else {
            let c = c - 0x10000;
            v.extend((0xd800 + (c >> 10) as u16).to_le_bytes());
            v.extend((0xdc00 + (c & 0x3ff) as u16).to_le_bytes());
        }
    }
    v
}

pub fn ver_bytes(v: &Ver) -> [u8; 8] {
    let b = v.build.to_le_bytes();
    [v.major, v.minor, b[0], b[1], 0, 0, 0, v.rev]
}

pub fn host_bytes(size: u32, z4: u32, custom: &[u8; 8], machine: &[u8; 32]) -> Vec<u8> {
    let mut v = size.to_le_bytes().to_vec();
    v.extend(z4.to_le_bytes());
    v.extend(custom);
    v.extend(machine);
    v
}

pub fn av_value(a: &Av) -> (u16, Vec<u8>) {
    match a {
        Av::Eol => (0, vec![]),
        Av::Name(id, s) => (*id, utf16(s)),
        Av::Flags(f) => (6, f.to_le_bytes().to_vec()),
        Av::Time(t) => (7, t.to_le_bytes().to_vec()),
        Av::Host { size, z4, custom, machine } => (8, host_bytes(*size, *z4, custom, machine)),
        Av::Chan(c) => (10, c.to_vec()),
    }
}

pub fn av_bytes(a: &Av) -> Vec<u8> {
    let (id, value) = av_value(a);
    raw_av(id, &value)
}
pub fn raw_av(id: u16, value: &[u8]) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    v.extend((value.len() as u16).to_le_bytes());
    v.extend(value);
    v
}
pub fn avs_bytes(l: &[Av]) -> Vec<u8> {
    l.iter().flat_map(av_bytes).collect()
}

pub fn blob_bytes(b: &Blob) -> Vec<u8> {
    let mut v = vec![1, 1, 0, 0, 0, 0, 0, 0];
    v.extend(b.time.to_le_bytes());
    v.extend(b.cc);
    v.extend([0; 4]);
    v.extend(avs_bytes(&b.infos));
    v
}

pub fn nt_bytes(n: &Nt) -> Vec<u8> {
    match n {
        Nt::V1(b) => b.to_vec(),
        Nt::V2(b) => blob_bytes(b),
        Nt::V2R(p, b) => {
            let mut v = p.to_vec();
            v.extend(blob_bytes(b));
            v.extend([0; 4]);
            v
        }
    }
}

/// A message before its payload is laid out: the fixed part with zero descriptors, where the
/// descriptors are, and the bytes they designate.
#[derive(Clone, Debug)]
pub struct Raw {
    pub fixed: Vec<u8>,
    pub fields: Vec<(usize, Vec<u8>)>,
}

impl Raw {
    /// Payload order, gap before each field (in order), what the maximum length says.
    pub fn lay(&self, order: &[usize], gaps: &[usize], max: fn(u16) -> u16) -> Vec<u8> {
        let mut b = self.fixed.clone();
        for (k, &f) in order.iter().enumerate() {
            let (desc, data) = &self.fields[f];
            for g in 0..gaps.get(k).copied().unwrap_or(0) {
                b.push(0xa0 | g as u8);
            }
            let at = if data.is_empty() { 0 } else { b.len() as u32 };
            put_desc(&mut b, *desc, data.len() as u16, max(data.len() as u16), at);
            b.extend(data);
        }
        b
    }
    pub fn canonical(&self) -> Vec<u8> {
        let order: Vec<usize> = (0..self.fields.len()).collect();
        self.lay(&order, &[], |l| l)
    }
}

pub fn put_desc(b: &mut [u8], at: usize, len: u16, max: u16, off: u32) {
    b[at..at + 2].copy_from_slice(&len.to_le_bytes());
    b[at + 2..at + 4].copy_from_slice(&max.to_le_bytes());
    b[at + 4..at + 8].copy_from_slice(&off.to_le_bytes());
}

fn head(kind: u32) -> Vec<u8> {
    let mut v = SIG.to_vec();
    v.extend(kind.to_le_bytes());
    v
}
fn opt16(s: &Option<String>) -> Vec<u8> {
    s.as_deref().map(utf16).unwrap_or_default()
}
fn opt8(s: &Option<String>) -> Vec<u8> {
    s.as_deref().map(|s| s.as_bytes().to_vec()).unwrap_or_default()
}

pub fn raw_of(m: &Msg) -> Raw {
    match m {
        Msg::Neg(n) => {
            let mut f = head(1);
            f.extend(n.flags.to_le_bytes());
            f.extend([0; 16]);
            if let Some(v) = &n.ver {
                f.extend(ver_bytes(v));
            }
            Raw { fixed: f, fields: vec![(16, opt8(&n.domain)), (24, opt8(&n.ws))] }
        }
        Msg::Chal(c) => {
            let mut f = head(2);
            f.extend([0; 8]);
            f.extend(c.flags.to_le_bytes());
            f.extend(c.sc);
            f.extend([0; 16]);
            if let Some(v) = &c.ver {
                f.extend(ver_bytes(v));
            }
            Raw { fixed: f, fields: vec![(12, opt16(&c.name)), (40, avs_bytes(&c.infos))] }
        }
        Msg::Auth(a) => {
            let mut f = head(3);
            f.extend([0; 48]);
            f.extend(a.flags.to_le_bytes());
            if let Some(v) = &a.ver {
                f.extend(ver_bytes(v));
            }
            f.extend(a.mic);
            Raw {
                fixed: f,
                fields: vec![
                    (12, a.lm.as_ref().map(|l| l.bytes().to_vec()).unwrap_or_default()),
                    (20, a.nt.as_ref().map(nt_bytes).unwrap_or_default()),
                    (28, opt16(&a.domain)),
                    (36, opt16(&a.user)),
                    (44, opt16(&a.ws)),
                    (52, a.key.map(|k| k.to_vec()).unwrap_or_default()),
                ],
            }
        }
    }
}

pub fn encode(m: &Msg) -> Vec<u8> {
    raw_of(m).canonical()
}

pub fn descriptors(k: Kind) -> &'static [usize] {
    match k {
        Kind::Neg => &[16, 24],
        Kind::Chal => &[12, 40],
        Kind::Auth => &[12, 20, 28, 36, 44, 52],
    }
}

// ---------------------------------------------------------------- decoding

pub fn u16_at(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
pub fn u32_at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn u64_at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

/// What decoding some bytes may give: one of `values` (none: it must be refused); refusing is
/// allowed as well if `may_refuse`.
#[derive(Clone, Debug)]
pub struct Dec<T> {
    pub values: Vec<T>,
    pub may_refuse: bool,
}
impl<T> Dec<T> {
    pub fn must(v: T) -> Self {
        Dec { values: vec![v], may_refuse: false }
    }
    pub fn refuse() -> Self {
        Dec { values: vec![], may_refuse: true }
    }
    pub fn either(v: Vec<T>) -> Self {
        Dec { values: v, may_refuse: true }
    }
    pub fn refused(&self) -> bool {
        self.values.is_empty()
    }
    pub fn map<U>(self, f: impl FnMut(T) -> U) -> Dec<U> {
        Dec { values: self.values.into_iter().map(f).collect(), may_refuse: self.may_refuse }
    }
}

/// UTF-16LE text up to the first NUL.
pub fn dec_text(d: &[u8]) -> Dec<String> {
    let mut s = String::new();
    let mut i = 0;
    while i + 1 < d.len() {
        let u = u16_at(d, i);
        i += 2;
        match u {
            0 => return Dec::must(s),
            0xd800..=0xdbff => {
                if i + 1 >= d.len() {
                    return Dec::refuse();
                }
                let l = u16_at(d, i);
                i += 2;
                if !(0xdc00..=0xdfff).contains(&l) {
                    return Dec::refuse();
                }
                let c = 0x10000 + (((u - 0xd800) as u32) << 10) + (l - 0xdc00) as u32;
                s.push(char::from_u32(c).unwrap());
            }
            0xdc00..=0xdfff => return Dec::refuse(),
            _ => s.push(char::from_u32(u as u32).unwrap()),
        }
    }
    // A stray byte at the end is not text
    Dec { values: vec![s], may_refuse: i < d.len() }
}

/// One attribute value.
pub fn dec_av(id: u16, d: &[u8]) -> Dec<Av> {
    let fixed = |n: usize, a: &dyn Fn(&[u8]) -> Option<Av>| -> Dec<Av> {
        if d.len() < n {
            return Dec::refuse();
        }
        match a(&d[..n]) {
            None => Dec::refuse(),
            Some(v) => Dec { values: vec![v], may_refuse: d.len() != n },
        }
    };
    match id {
        0 => {
            if d.is_empty() {
                Dec::must(Av::Eol)
            } else {
                Dec::refuse()
            }
        }
        1..=5 | 9 => dec_text(d).map(|s| Av::Name(id, s)),
        6 => fixed(4, &|d| Some(u32_at(d, 0)).filter(|f| f & !7 == 0).map(Av::Flags)),
        7 => fixed(8, &|d| Some(Av::Time(u64_at(d, 0)))),
        8 => fixed(48, &|d| {
            Some(Av::Host {
                size: u32_at(d, 0),
                z4: 0,
                custom: d[8..16].try_into().unwrap(),
                machine: d[16..48].try_into().unwrap(),
            })
            .filter(|_| u32_at(d, 4) == 0)
        }),
        10 => fixed(16, &|d| Some(Av::Chan(d.try_into().unwrap()))),
        _ => Dec::refuse(),
    }
}

/// Pairs up to the first malformed one, how many bytes they take, whether each of them had to be
/// accepted.
pub fn dec_avs(d: &[u8]) -> (Vec<Av>, usize, bool) {
    let mut l = vec![];
    let mut i = 0;
    let mut sure = true;
    while i + 4 <= d.len() {
        let n = u16_at(d, i + 2) as usize;
        if i + 4 + n > d.len() {
            break;
        }
        let v = dec_av(u16_at(d, i), &d[i + 4..i + 4 + n]);
        if v.refused() {
            break;
        }
        sure &= !v.may_refuse;
        l.push(v.values.into_iter().next().unwrap());
        i += 4 + n;
    }
    (l, i, sure)
}

/// The target information field of a CHALLENGE.
pub fn dec_infos(d: &[u8]) -> Dec<Vec<Av>> {
    if d.is_empty() {
        return Dec::must(vec![]);
    }
    let (l, used, sure) = dec_avs(d);
    let first = l.iter().position(|a| *a == Av::Eol);
    match first {
        None => Dec::refuse(),
        Some(f) if f + 1 == l.len() => {
            if used == d.len() && sure {
                Dec::must(l)
            } else {
                Dec::either(vec![l])
            }
        }
        Some(f) => {
            // Pairs behind the end of the list: a reader may stop there or go on
            let mut v = vec![l[..=f].to_vec()];
            if l.last() == Some(&Av::Eol) {
                v.push(l);
            }
            Dec::either(v)
        }
    }
}

pub fn dec_blob(d: &[u8]) -> Option<(Blob, usize, bool)> {
    if d.len() < 28 || d[..8] != [1, 1, 0, 0, 0, 0, 0, 0] || u32_at(d, 24) != 0 {
        return None;
    }
    let (infos, used, sure) = dec_avs(&d[28..]);
    Some((Blob { time: u64_at(d, 8), cc: d[16..24].try_into().unwrap(), infos }, 28 + used, sure))
}

pub fn dec_nt(d: &[u8]) -> Dec<Nt> {
    let mut values = vec![];
    let mut sure = false;
    if let Some((b, used, s)) = dec_blob(d) {
        sure = s && used == d.len();
        values.push(Nt::V2(b));
    } else if d.len() >= 48 && d[d.len() - 4..] == [0; 4] {
        if let Some((b, used, s)) = dec_blob(&d[16..d.len() - 4]) {
            if used == d.len() - 20 {
                sure = s;
                values.push(Nt::V2R(d[..16].try_into().unwrap(), b));
            }
        }
    }
    if d.len() >= 24 && !sure {
        sure = d.len() == 24;
        values.push(Nt::V1(d[..24].try_into().unwrap()));
    }
    Dec { values, may_refuse: !sure }
}

pub fn dec_lm(d: &[u8]) -> Dec<Option<[u8; 24]>> {
    match d.len() {
        0 => Dec::must(None),
        24 => Dec::must(Some(d.try_into().unwrap())),
        1..=23 => Dec::either(vec![None]),
        _ => Dec::either(vec![Some(d[..24].try_into().unwrap()), None]),
    }
}

pub fn strict_flags(f: u32) -> bool {
    !RESERVED.iter().any(|b| has(f, *b))
        && !(has(f, TYPE_DOMAIN) && has(f, TYPE_SERVER))
        && (has(f, UNICODE) || has(f, OEM))
        && !(has(f, ESS) && has(f, LM_KEY))
}

pub struct Reader<'a> {
    pub b: &'a [u8],
}
impl<'a> Reader<'a> {
    /// The bytes a descriptor designates; `None` if they are not all there.
    pub fn field(&self, desc: usize) -> Option<&'a [u8]> {
        let len = u16_at(self.b, desc) as usize;
        let off = u32_at(self.b, desc + 4) as usize;
        if len == 0 {
            return Some(&[]);
        }
        if off > self.b.len() || len > self.b.len() - off {
            return None;
        }
        Some(&self.b[off..off + len])
    }
}

pub fn dec_ver(d: &[u8]) -> Option<Ver> {
    if d.len() < 8 || d[4..7] != [0; 3] || d[7] != 15 {
        return None;
    }
    Some(Ver { major: d[0], minor: d[1], build: u16_at(d, 2), rev: 15 })
}

fn start(b: &[u8], kind: u32, fixed: usize, flags_at: usize) -> Option<(u32, Option<Ver>)> {
    if b.len() < fixed || &b[..8] != SIG || u32_at(b, 8) != kind {
        return None;
    }
    let flags = u32_at(b, flags_at);
    let ver = if has(flags, VERSION) { Some(dec_ver(&b[fixed..])?) } else { None };
    Some((flags, ver))
}

/// An empty name counts as absent.
pub fn norm(s: &Option<String>) -> Option<&str> {
    s.as_deref().filter(|s| !s.is_empty())
}

fn same_name(what: &str, exp: &Dec<String>, got: &Option<String>) -> Res {
    let got = norm(got);
    if exp.values.iter().any(|e| e.as_str() == got.unwrap_or("")) {
        Ok(())
    } else {
        Err(format!("{what} decoded as {got:?}, descriptor designates {:?}", exp.values))
    }
}

pub use crate::engine::Res;

/// Result of judging one decode: how it had to end.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Decoded,
    Refused,
    Free,
}
impl Verdict {
    pub fn name(self) -> &'static str {
        match self {
            Verdict::Decoded => "decoded",
            Verdict::Refused => "refused",
            Verdict::Free => "free",
        }
    }
}

fn text8(d: &[u8]) -> Dec<String> {
    match std::str::from_utf8(d) {
        Ok(s) => Dec::must(s.to_string()),
        Err(_) => Dec::refuse(),
    }
}

/// Does the decoding result `got` of the bytes `b`, as a message of kind `kind`, agree with the
/// specification?
pub fn judge(kind: Kind, b: &[u8], got: Option<&Msg>) -> Result<Verdict, String> {
    let (must_refuse, may_refuse) = expect(kind, b, got)?;
    match (got, must_refuse, may_refuse) {
        (Some(_), Some(why), _) => Err(format!("decoded although {why}")),
        (None, Some(_), _) => Ok(Verdict::Refused),
        (None, None, false) => Err("refused although well formed".into()),
        (_, None, true) => Ok(Verdict::Free),
        (Some(_), None, false) => Ok(Verdict::Decoded),
    }
}

/// (reason why it must be refused, may be refused); compares the content of `got` with the bytes.
fn expect(kind: Kind, b: &[u8], got: Option<&Msg>) -> Result<(Option<&'static str>, bool), String> {
    const BAD_HEAD: &str = "the fixed part is foreign, cut or malformed";
    let r = Reader { b };
    let mut may = false;
    macro_rules! field {
        ($desc:expr, $why:literal) => {
            match r.field($desc) {
                Some(d) => d,
                None => return Ok((Some($why), true)),
            }
        };
    }
    macro_rules! name {
        ($d:expr, $dec:ident, $why:literal) => {{
            let v = $dec($d);
            if v.refused() {
                return Ok((Some($why), true));
            }
            may |= v.may_refuse;
            v
        }};
    }
    match kind {
        Kind::Neg => {
            let Some((flags, ver)) = start(b, 1, 32, 12) else {
                return Ok((Some(BAD_HEAD), true));
            };
            let domain = name!(field!(16, "the domain reaches outside"), text8, "the domain is not text");
            let ws = name!(field!(24, "the workstation reaches outside"), text8, "the workstation is not text");
            if let Some(Msg::Neg(g)) = got {
                if g.flags != flags {
                    return Err(format!("flags decoded as {:#x}, sent {flags:#x}", g.flags));
                }
                if g.ver != ver {
                    return Err(format!("version decoded as {:?}, sent {ver:?}", g.ver));
                }
                same_name("domain", &domain, &g.domain)?;
                same_name("workstation", &ws, &g.ws)?;
            }
        }
        Kind::Chal => {
            let Some((flags, ver)) = start(b, 2, 48, 20) else {
                return Ok((Some(BAD_HEAD), true));
            };
            let name = name!(field!(12, "the target name reaches outside"), dec_text, "the target name is not text");
            let infos = dec_infos(field!(40, "the target information reaches outside"));
            if infos.refused() {
                return Ok((Some("the target information is not terminated"), true));
            }
            may |= infos.may_refuse;
            if let Some(Msg::Chal(g)) = got {
                if g.flags != flags {
                    return Err(format!("flags decoded as {:#x}, sent {flags:#x}", g.flags));
                }
                if g.ver != ver {
                    return Err(format!("version decoded as {:?}, sent {ver:?}", g.ver));
                }
                if g.sc != b[24..32] {
                    return Err(format!("server challenge decoded as {:x?}", g.sc));
                }
                same_name("target name", &name, &g.name)?;
                if !infos.values.contains(&g.infos) {
                    return Err(format!("target information decoded as {:?}, descriptor designates {:?}", g.infos, infos.values));
                }
            }
        }
        Kind::Auth => {
            let Some((flags, ver)) = start(b, 3, 64, 60) else {
                return Ok((Some(BAD_HEAD), true));
            };
            let mic_at = if ver.is_some() { 72 } else { 64 };
            if b.len() < mic_at + 16 {
                return Ok((Some("the integrity code is cut"), true));
            }
            let lm = dec_lm(field!(12, "the LM response reaches outside"));
            may |= lm.may_refuse;
            let nt_data = field!(20, "the NT response reaches outside");
            let nt: Dec<Option<Nt>> = if nt_data.is_empty() {
                Dec::must(None)
            } else {
                dec_nt(nt_data).map(Some)
            };
            let mut why = None;
            if nt.refused() {
                why = Some("the NT response has no known format");
            }
            may |= nt.may_refuse;
            let domain = name!(field!(28, "the domain reaches outside"), dec_text, "the domain is not text");
            let user = name!(field!(36, "the user reaches outside"), dec_text, "the user is not text");
            let ws = name!(field!(44, "the workstation reaches outside"), dec_text, "the workstation is not text");
            let key: Dec<Option<[u8; 16]>> = match (r.field(52), has(flags, KEY_EXCH)) {
                (None, true) => return Ok((Some("the session key reaches outside"), true)),
                (None, false) => Dec::either(vec![None]),
                (Some(k), announced) => match k.len() {
                    0 => Dec::must(None),
                    16 if announced => Dec::must(Some(k.try_into().unwrap())),
                    16 => Dec { values: vec![None, Some(k.try_into().unwrap())], may_refuse: false },
                    1..=15 => Dec::either(vec![None]),
                    _ => Dec::either(vec![None, Some(k[..16].try_into().unwrap())]),
                },
            };
            may |= key.may_refuse;
            if why.is_some() {
                return Ok((why, true));
            }
            if let Some(Msg::Auth(g)) = got {
                if g.flags != flags {
                    return Err(format!("flags decoded as {:#x}, sent {flags:#x}", g.flags));
                }
                if g.ver != ver {
                    return Err(format!("version decoded as {:?}, sent {ver:?}", g.ver));
                }
                if g.mic != b[mic_at..mic_at + 16] {
                    return Err(format!("integrity code decoded as {:x?}", g.mic));
                }
                let got_lm = g.lm.as_ref().map(|l| *l.bytes());
                if !lm.values.contains(&got_lm) {
                    return Err(format!("LM response decoded as {got_lm:x?}, descriptor designates {:x?}", lm.values));
                }
                if !nt.values.contains(&g.nt) {
                    return Err(format!("NT response decoded as {:x?}, descriptor designates {:x?}", g.nt, nt.values));
                }
                if let (Some(l), Some(n)) = (&g.lm, &g.nt) {
                    if l.is_v1() != matches!(n, Nt::V1(_)) {
                        return Err(format!("LM response decoded as {l:x?} next to {n:x?}"));
                    }
                }
                same_name("domain", &domain, &g.domain)?;
                same_name("user", &user, &g.user)?;
                same_name("workstation", &ws, &g.ws)?;
                if !key.values.contains(&g.key) {
                    return Err(format!("session key decoded as {:x?}, descriptor designates {:x?}", g.key, key.values));
                }
            }
        }
    }
    Ok((None, may))
}

/// Decodes a canonical message; any irregularity is an error.
pub fn parse(kind: Kind, b: &[u8]) -> Result<Msg, String> {
    let r = Reader { b };
    let field = |desc: usize| r.field(desc).ok_or_else(|| format!("the field at {desc} reaches outside of the message"));
    let text = |desc: usize| -> Result<Option<String>, String> {
        let d = field(desc)?;
        let units: Vec<u16> = d.chunks(2).map(|c| if c.len() == 2 { u16_at(c, 0) } else { 0xdc00 }).collect();
        let t = String::from_utf16(&units).map_err(|_| format!("the field at {desc} is not Unicode text: {d:x?}"))?;
        Ok(Some(t).filter(|t| !t.is_empty()))
    };
    let bad = || "the fixed part is foreign, cut or malformed".to_string();
    Ok(match kind {
        Kind::Neg => {
            let (flags, ver) = start(b, 1, 32, 12).ok_or_else(bad)?;
            let text8 = |desc: usize| -> Result<Option<String>, String> {
                let s = std::str::from_utf8(field(desc)?).map_err(|_| "not text")?;
                Ok(Some(s.to_string()).filter(|t| !t.is_empty()))
            };
            Msg::Neg(Neg { flags, domain: text8(16)?, ws: text8(24)?, ver })
        }
        Kind::Chal => {
            let (flags, ver) = start(b, 2, 48, 20).ok_or_else(bad)?;
            if u64_at(b, 32) != 0 {
                return Err("the reserved field is not zero".into());
            }
            let d = field(40)?;
            let (infos, used, sure) = dec_avs(d);
            if used != d.len() || !sure {
                return Err(format!("malformed target information: {d:x?}"));
            }
            Msg::Chal(Chal { flags, name: text(12)?, sc: b[24..32].try_into().unwrap(), infos, ver })
        }
        Kind::Auth => {
            let (flags, ver) = start(b, 3, 64, 60).ok_or_else(bad)?;
            let at = if ver.is_some() { 72 } else { 64 };
            if b.len() < at + 16 {
                return Err(bad());
            }
            let d = field(20)?;
            let nt = if d.is_empty() {
                None
            } else {
                let mut n = dec_nt(d);
                if n.refused() || n.may_refuse {
                    return Err(format!("malformed NT response {d:x?}"));
                }
                n.values.pop()
            };
            let d = field(12)?;
            let v1 = match &nt {
                Some(Nt::V1(_)) => true,
                Some(_) => false,
                None => has(flags, NTLM),
            };
            let lm = match d.len() {
                0 => None,
                24 => {
                    let d = d.try_into().unwrap();
                    Some(if v1 { Lm::V1(d) } else { Lm::V2(d) })
                }
                _ => return Err(format!("malformed LM response {d:x?}")),
            };
            let d = field(52)?;
            let key = match d.len() {
                0 => None,
                16 => Some(d.try_into().unwrap()),
                _ => return Err(format!("malformed session key {d:x?}")),
            };
            Msg::Auth(Auth {
                lm,
                nt,
                domain: text(28)?,
                user: text(36)?,
                ws: text(44)?,
                key,
                flags,
                ver,
                mic: b[at..at + 16].try_into().unwrap(),
            })
        }
    })
}

/// Equality in every transmitted part.
pub fn same(a: &Msg, b: &Msg) -> bool {
    match (a, b) {
        (Msg::Neg(a), Msg::Neg(b)) => {
            a.flags == b.flags && a.ver == b.ver && norm(&a.domain) == norm(&b.domain) && norm(&a.ws) == norm(&b.ws)
        }
        (Msg::Chal(a), Msg::Chal(b)) => {
            a.flags == b.flags && a.ver == b.ver && norm(&a.name) == norm(&b.name) && a.sc == b.sc && a.infos == b.infos
        }
        (Msg::Auth(a), Msg::Auth(b)) => {
            a.flags == b.flags
                && a.ver == b.ver
                && norm(&a.domain) == norm(&b.domain)
                && norm(&a.user) == norm(&b.user)
                && norm(&a.ws) == norm(&b.ws)
                && a.key == b.key
                && a.mic == b.mic
                && a.lm == b.lm
                && a.nt == b.nt
        }
        _ => false,
    }
}

pub struct Fx(pub u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z ^ (z >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.write_u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let r = it.remainder();
        if !r.is_empty() {
            let mut x = [0u8; 8];
            x[..r.len()].copy_from_slice(r);
            self.write_u64(u64::from_le_bytes(x) ^ (r.len() as u64) << 59);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64);
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64);
    }
}
pub fn fx<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Fx(0x1234567);
    v.hash(&mut h);
    h.finish()
}
