//! Alphabets and base messages of the explored spaces.

use crate::spec::bit::*;
use crate::spec::*;

pub fn pattern<const N: usize>(seed: u8) -> [u8; N] {
    let mut a = [0; N];
    for (i, b) in a.iter_mut().enumerate() {
        *b = seed.wrapping_add((i as u8).wrapping_mul(17)) | 1;
    }
    a
}

pub fn ver() -> Ver {
    Ver { major: 10, minor: 2, build: 0x4a61, rev: 15 }
}

pub fn host() -> Av {
    Av::Host { size: 48, z4: 0, custom: pattern(0x31), machine: pattern(0x55) }
}

pub fn name(id: u16, s: &str) -> Av {
    Av::Name(id, s.into())
}

/// One pair of every kind and then some.
pub fn av_letters() -> Vec<Av> {
    vec![
        name(2, "Domain"),
        name(1, "Server"),
        name(4, "d.example"),
        name(3, "s.d.example"),
        name(5, "tree"),
        Av::Flags(2),
        Av::Time(0x01d9_1234_5678_9abc),
        host(),
        name(9, "http/s"),
        Av::Chan(pattern(0x71)),
        name(1, ""),
        name(2, "é😀"),
        Av::Flags(5),
        Av::Time(0),
    ]
}

pub fn full_infos() -> Vec<Av> {
    let mut l: Vec<Av> = av_letters().into_iter().take(10).collect();
    l.push(Av::Eol);
    l
}
pub fn short_infos() -> Vec<Av> {
    vec![name(2, "Dom"), name(1, "Srv"), Av::Time(0x01d9_0000_0000_0001), Av::Eol]
}

pub fn base_flags() -> u32 {
    bits(&[UNICODE, REQUEST_TARGET, SIGN, SEAL, NTLM, ALWAYS_SIGN, ESS, TARGET_INFO, N128, KEY_EXCH, N56])
}

pub fn blob() -> Blob {
    Blob { time: 0x01d9_aabb_ccdd_eeff, cc: pattern(0x91), infos: short_infos() }
}

pub fn some(s: &str) -> Option<String> {
    Some(s.into())
}

/// Messages with distinct content everywhere, from full to empty.
pub fn base_msgs() -> Vec<(&'static str, Msg)> {
    let f = base_flags();
    let v = f | bits(&[VERSION]);
    let neg = |flags, domain: &str, ws: &str, ver| {
        let mut n = Neg { flags, ver, ..Default::default() };
        if !domain.is_empty() {
            n.domain = some(domain);
            n.flags |= bits(&[DOMAIN_SUPPLIED]);
        }
        if !ws.is_empty() {
            n.ws = some(ws);
            n.flags |= bits(&[WS_SUPPLIED]);
        }
        Msg::Neg(n)
    };
    let v1 = Auth {
        lm: Some(Lm::V1(pattern(0x10))),
        nt: Some(Nt::V1(pattern(0x60))),
        domain: some("DOM"),
        user: some("usér"),
        ws: some("WS01"),
        key: Some(pattern(0xc3)),
        flags: v,
        ver: Some(ver()),
        mic: pattern(0xe5),
    };
    let v2 = Auth {
        lm: Some(Lm::V2(pattern(0x20))),
        nt: Some(Nt::V2R(pattern(0x40), blob())),
        user: some("a😀"),
        ..v1.clone()
    };
    vec![
        ("negotiate full", neg(v, "DOMAIN", "WSTATION", Some(ver()))),
        ("negotiate bare", neg(f, "", "", None)),
        ("negotiate domain", neg(f, "dömain", "", None)),
        ("challenge full", Msg::Chal(Chal { flags: v, name: some("Sérver"), sc: pattern(0x81), infos: short_infos(), ver: Some(ver()) })),
        ("challenge all infos", Msg::Chal(Chal { flags: f, name: some("S"), sc: pattern(0x81), infos: full_infos(), ver: None })),
        ("challenge bare", Msg::Chal(Chal { flags: f & !bits(&[TARGET_INFO, REQUEST_TARGET]), name: None, sc: pattern(0x81), infos: vec![], ver: None })),
        ("authenticate v1", Msg::Auth(v1.clone())),
        ("authenticate v2", Msg::Auth(v2.clone())),
        ("authenticate v2 no version", Msg::Auth(Auth { flags: f, ver: None, ..v2.clone() })),
        (
            "authenticate bare",
            Msg::Auth(Auth { flags: f & !bits(&[KEY_EXCH]), mic: pattern(0xe5), ..Default::default() }),
        ),
        ("authenticate blob", Msg::Auth(Auth { nt: Some(Nt::V2(blob())), key: None, flags: v & !bits(&[KEY_EXCH]), ..v2 })),
        ("authenticate v1 no version", Msg::Auth(Auth { flags: f, ver: None, domain: None, ..v1 })),
    ]
}

/// Names: empty, short, boundary scripts, and the characters that have special meaning somewhere.
pub fn names() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "A", "Server", "é", "日本", "😀", "a\u{10ffff}b", "\u{d7ff}\u{e000}", "\u{ffff}", "\u{feff}x", " ", "a\\b@c", "ǅ", "\u{1}", "ß",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("x".repeat(127));
    v.push("é".repeat(128));
    v.push("y".repeat(255));
    v
}

/// All permutations of 0..n.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for k in 0..n {
        let mut next = vec![];
        for p in out {
            for at in 0..=p.len() {
                let mut q: Vec<usize> = p.clone();
                q.insert(at, k);
                next.push(q);
            }
        }
        out = next;
    }
    out
}

/// Bytes which mean something somewhere in the formats.
pub const BYTES: &[u8] = &[0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 15, 16, 24, 28, 48, 0x7f, 0x80, 0xd8, 0xdc, 0xff];
pub const FEW: &[u8] = &[0, 1, 4, 0xd8, 0xff];

/// Offsets worth trying in a message of `n` bytes.
pub fn offsets(n: usize) -> Vec<u32> {
    let n = n as u32;
    let mut v = vec![
        0, 1, 2, 8, 12, 32, 47, 48, 64, n / 2, n.saturating_sub(24), n.saturating_sub(16), n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 2, 255, 256, 0x7fff, 0x8000, 0xffff,
        0x10000, 0x10001, 0x7fff_ffff, 0x8000_0000, 0xffff_0000, 0xffff_0001, 0xffff_fff0, 0xffff_fffe, 0xffff_ffff,
    ];
    v.sort();
    v.dedup();
    v
}
pub fn lengths(n: usize) -> Vec<u16> {
    let n = n as u16;
    let mut v = vec![
        0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 23, 24, 25, 27, 28, 32, 44, 47, 48, 49, 64, n.saturating_sub(1), n, n + 1, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff,
    ];
    v.sort();
    v.dedup();
    v
}

/// Every set of at most `k` of the first `n` numbers.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<u16>> {
    let mut sets: Vec<Vec<u16>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..k {
        let end = sets.len();
        for s in from..end {
            for x in sets[s].last().map_or(0, |l| l + 1)..n as u16 {
                let mut t = sets[s].clone();
                t.push(x);
                sets.push(t);
            }
        }
        from = end;
    }
    sets
}

/// Lengths of a text: every short one, and some on both sides of each round number up to `2^top`.
pub fn text_lengths(short: usize, top: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=short).collect();
    for b in 8..=top {
        for l in [1 << b, 3 << (b - 1)] {
            v.extend([l - 2, l - 1, l, l + 1, l + 2]);
        }
    }
    v.retain(|l| *l <= (1 << top) + 2);
    v.sort();
    v.dedup();
    v
}

/// Encoded target information pieces, well formed and not.
pub fn av_pieces() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("eol", raw_av(0, &[])),
        ("name", raw_av(1, &utf16("Srv"))),
        ("dns", raw_av(3, &utf16("é😀"))),
        ("empty name", raw_av(2, &[])),
        ("flags", raw_av(6, &2u32.to_le_bytes())),
        ("time", raw_av(7, &0x01d9_1234_5678_9abcu64.to_le_bytes())),
        ("chan", raw_av(10, &pattern::<16>(0x71))),
        ("host", av_bytes(&host())),
        ("target", raw_av(9, &utf16("a\\b"))),
        ("eol with value", raw_av(0, &[0, 0])),
        ("unknown id", raw_av(11, &[1, 0])),
        ("id 256", raw_av(256, &[])),
        ("overrun", vec![1, 0, 200, 0, b'a', 0]),
        ("huge overrun", vec![2, 0, 0xff, 0xff]),
        ("cut head", vec![1, 0, 2]),
        ("short flags", raw_av(6, &[2, 0, 0])),
        ("undefined flags", raw_av(6, &8u32.to_le_bytes())),
        ("long flags", raw_av(6, &[1, 0, 0, 0, 9])),
        ("short time", raw_av(7, &[1, 2, 3, 4, 5, 6, 7])),
        ("short chan", raw_av(10, &[1; 15])),
        ("reserved host", av_bytes(&Av::Host { size: 48, z4: 1, custom: [0; 8], machine: [0; 32] })),
        ("short host", raw_av(8, &[0; 47])),
        ("lone surrogate", raw_av(4, &[0x3d, 0xd8, b'a', 0])),
        ("nul in name", raw_av(5, &[b'a', 0, 0, 0, b'b', 0])),
        ("odd name", raw_av(2, &[b'a', 0, b'b'])),
        ("zero byte", vec![0]),
    ]
}

/// Every Unicode scalar value, by number.
pub const SCALARS: u64 = 0x110000 - 0x800;
pub fn scalar(i: u64) -> char {
    let c = if i < 0xd800 { i } else { i + 0x800 };
    char::from_u32(c as u32).unwrap()
}

/// Names that mean something to somebody: a client sends them like any other.
pub fn dictionary() -> &'static [&'static str] {
    &[
        "localhost", "LOCALHOST", "localhost.localdomain", "localhost4", "localhost6.localdomain6", "ip6-localhost", ".", "..", "...", "-", "_", "*", "?", "/", "//", "\\", "\\\\server\\share", "@", "@@",
        ":", ";", ",", "=", "+", "~", "#", "$", "%", "&", "|", "<>", "[]", "{}", "()", "!", "^", "`", "'", "''", "\"", "\"a\"", "'a'", "0", "00", "1", "-1", "255", "256", "65535", "127.0.0.1", "0.0.0.0",
        "192.168.1.10", "10.0.0.1:445", "1.2.3", "1.2.3.4.5", "::", "::1", "[::1]", "fe80::1%eth0", "WORKGROUP", "workgroup", "MSHOME", "BUILTIN", "NT AUTHORITY", "NT AUTHORITY\\SYSTEM", "SYSTEM",
        "ANONYMOUS", "ANONYMOUS LOGON", "Anonymous", "anonymous", "guest", "Guest", "root", "admin", "Administrator", "ADMINISTRATOR", "Everyone", "null", "NULL", "(null)", "(none)", "none", "None", "nil",
        "nullptr", "undefined", "NaN", "true", "false", "unknown", "UNKNOWN", "default", "DEFAULT", "test", "user", "User", "domain", "DOMAIN", "password", "Password", "%40", "%5C", "%5c", "%00", "%20", "%s",
        "%n", "%d", "%%", "%USERNAME%", "%COMPUTERNAME%", "${USER}", "$(id)", "$USER", "a%40b", "a%5Cb", "a&amp;b", "&#64;", "\\u0041", "\\x41", "\\n", "\\0", "user@domain", "user@domain.example",
        "user@domain@domain", "DOMAIN\\user", "DOMAIN/user", "DOMAIN+user", "DOMAIN\\\\user", "\\user", "DOMAIN\\", "HTTP/server", "HTTP/server.example:8080", "host/server@REALM", "cifs/server", "http://server/", "ntlm",
        "NTLM", "NTLMSSP", "NTLMSSP\u{1}", "xn--dmin-moa0i", "d\u{f6}m\u{e4}in", "corp.local", "CORP.LOCAL", "corp.local.", ".corp.local", "corp", "host.corp.local", "HOST$", "host$", "MicrosoftAccount", "AzureAD",
        "S-1-5-18", "S-1-5-21-1-2-3-500", "{00000000-0000-0000-0000-000000000000}", "CON", "NUL", "COM1", "LPT1", "CON.txt", " ", "  ", "\t", " a", "a ", " a ", "\ta\t", "a  b", "a\nb", "a\r\nb", "a\rb", "\n",
        "\r\n", "a\n", "\na", "a\u{85}b", "a\u{2028}b", "\u{a0}", "a\u{a0}", "\u{ad}", "a\u{ad}b", "\u{feff}", "a\u{feff}", "\u{200b}", "a\u{200b}b", "a\u{200d}b", "\u{202e}ab", "\u{2066}ab\u{2069}",
        "e\u{301}", "\u{e9}", "\u{301}", "\u{1100}\u{1161}\u{11a8}", "\u{ac01}", "\u{fb01}", "\u{2126}", "\u{3a9}", "\u{212b}", "\u{c5}", "\u{ff21}", "\u{130}", "\u{131}", "\u{17f}", "\u{df}", "ss",
        "SS", "\u{1e9e}", "\u{3c2}", "\u{3c3}", "\u{3a3}", "\u{fffd}", "a\u{fffd}", "\u{e000}", "\u{1f468}\u{200d}\u{1f469}", "\u{1f1e9}\u{1f1ea}", "\u{1d400}", "\u{7f}", "\u{1b}[0m", "\u{8}", "a\u{1}", "TlRMTVNTUAAB",
        "15characters-ab", "16characters-abc", "A-NAME-OF-EXACTLY-20", "0x41", "1e5", "2024-01-01", "aad3b435b51404eeaad3b435b51404ee", "31d6cfe0d16ae931b73c59d7e0c089c0", "KGS!@#$%",
        "session key to server-to-client signing key magic constant",
    ]
}
