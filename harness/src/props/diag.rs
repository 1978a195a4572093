//! C29: no secret leaves the client, neither in a message nor in what it prints or logs.

use super::hs::Src;
use super::seq::{perform_plain, short_words, Op};
use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use crate::real::*;
use crate::server;
use crate::spec::bit::*;
use crate::spec::*;

#[derive(Clone, Debug)]
struct Talk {
    level: u32,
    cr: Creds,
    /// From an account name
    account: bool,
    src: Src,
    ops: Vec<Op>,
}

/// Passwords whose text cannot be part of anything else.
fn passwords() -> Vec<String> {
    ["Tr0ub4dor&3-Xyzzy", "qW9$zzPk", "Pässwörd-ключ-😀", "pa\"ss\nw\\ord'{}x\t9", "ALLUPPER-4711-JKL"].iter().map(|s| s.to_string()).chain(["S3cr3t-piece/".repeat(25)]).collect()
}

fn find(hay: &[u8], needle: &[u8]) -> bool {
    !needle.is_empty() && hay.len() >= needle.len() && hay.windows(needle.len()).any(|w| w == needle)
}

fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() {
            s.push(A[(v >> (18 - 6 * k)) as usize & 63] as char);
        }
    }
    s
}

/// Text, in the forms in which a byte string can show up in it.
struct Text {
    raw: Vec<u8>,
    lower: String,
    /// Words joined by commas, and the same without prefixes and commas
    words: String,
    digits: String,
}
impl Text {
    fn new(raw: Vec<u8>) -> Self {
        let lower = String::from_utf8_lossy(&raw).to_lowercase();
        let list: Vec<&str> = lower.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.strip_prefix("0x").unwrap_or(w)).collect();
        Text { words: format!(",{},", list.join(",")), digits: list.concat(), lower, raw }
    }
    fn shows(&self, secret: &[u8]) -> bool {
        let join = |f: &dyn Fn(&u8) -> String| format!(",{},", secret.iter().map(f).collect::<Vec<_>>().join(","));
        let hex: String = secret.iter().map(|b| format!("{b:02x}")).collect();
        find(&self.raw, secret)
            || self.lower.contains(&hex)
            || self.digits.contains(&hex)
            || self.words.contains(&join(&|b| format!("{b}")))
            || self.words.contains(&join(&|b| format!("{b:x}")))
            || self.words.contains(&join(&|b| format!("{b:02x}")))
            || find(&self.raw, base64(secret).as_bytes())
    }
    fn shows_text(&self, s: &str) -> bool {
        let low = s.to_lowercase();
        let debug = format!("{low:?}");
        self.lower.contains(&low)
            || self.lower.contains(debug.trim_matches('"'))
            || self.lower.contains(&low.escape_default().to_string())
            || [s.to_string(), low.clone(), server::upper(s)].iter().any(|t| self.shows(t.as_bytes()) || self.shows(&utf16(t)))
    }
}

/// The secrets: byte strings of 16.
fn kept(k: &server::Keys) -> Vec<(&'static str, [u8; 16])> {
    vec![("the NT hash", k.nt), ("the LM hash", k.lm), ("the NTLMv2 hash", k.v2), ("the NTLMv1 session base key", server::md4(&k.nt))]
}

fn judge(where_: &str, text: &Text, password: &str, secrets: &[(&'static str, [u8; 16])]) -> Res {
    if text.shows_text(password) {
        return Err(format!("{where_} shows the password: {:?}", String::from_utf8_lossy(&text.raw)));
    }
    for (what, s) in secrets {
        for half in [&s[..8], &s[8..]] {
            if half != [0; 8] && text.shows(half) {
                return Err(format!("{where_} shows {what} (or half of it): {:?}", String::from_utf8_lossy(&text.raw)));
            }
        }
    }
    Ok(())
}

fn run_talk(c: &Talk, o: &mut Obs) -> Res {
    let keys = server::keys(&c.cr.password, &c.cr.user, &c.cr.domain);
    let mut secrets = kept(&keys);
    let (cl, out) = captured(|| {
        guard(|| if c.account { client_account(c.level, &format!("{}\\{}", c.cr.domain, c.cr.user), &c.cr.password) } else { client(c.level, &c.cr) })
    });
    let mut cl = cl?;
    let mut printed = out;
    let mut sent = vec![];
    let chal = c.src.model();
    for (n, op) in c.ops.iter().enumerate() {
        let (r, out) = captured(|| match (op, &c.src) {
            (Op::Challenge(_), Src::Wire(_)) => {
                let real = c.src.real()?;
                guard(|| {
                    cl.challenge(real);
                    None
                })
            }
            _ => perform_plain(&mut cl, *op, &|_| chal.clone(), n),
        });
        o.steps(1);
        printed.extend(out);
        match r {
            Ok(None) => {}
            Ok(Some(b)) => {
                o.outcome("sent");
                if let (Op::Authenticate, Ok(Msg::Auth(a))) = (op, parse(Kind::Auth, &b)) {
                    if let Ok(k) = server::kxkey(chal.flags, &keys, &chal.sc, &a) {
                        secrets.push(("the key exchange key", k));
                    }
                    if let Ok(k) = server::session_key(chal.flags, &keys, &chal.sc, &a) {
                        secrets.push(("the session key", k));
                    }
                    if let Some(k) = cl.session_key() {
                        secrets.push(("the session key", k));
                    }
                }
                sent.push(b);
            }
            Err(e) => {
                o.outcome("refused");
                printed.push(b'\n');
                printed.extend(e.bytes());
            }
        }
    }
    let ((), out) = captured(|| drop(cl));
    printed.extend(out);
    secrets.sort();
    secrets.dedup();
    o.state(&(c.level, &sent, &printed));
    judge("what the client prints or logs", &Text::new(printed), &c.cr.password, &secrets)?;
    for b in sent {
        // In a message, bytes are bytes
        let texts = [c.cr.password.clone(), server::upper(&c.cr.password), c.cr.password.to_lowercase()];
        if texts.iter().any(|t| find(&b, t.as_bytes()) || find(&b, &utf16(t))) {
            return Err(format!("a message shows the password: {b:x?}"));
        }
        for (what, s) in &secrets {
            if [&s[..8], &s[8..]].into_iter().any(|h| h != [0; 8] && find(&b, h)) {
                return Err(format!("a message shows {what} (or half of it): {b:x?}"));
            }
        }
    }
    Ok(())
}

/// Some of them do not exist
const LEVELS: [u32; 9] = [0, 1, 2, 3, 4, 5, 6, 256, u32::MAX];

pub fn c29(deep: bool) -> Vec<Space> {
    let pw = passwords();
    let chal = |flags: u32, infos: Vec<Av>| Chal { flags, name: some("Server"), sc: pattern(0x81), infos, ver: has(flags, VERSION).then(ver) };
    let flags = [base_flags(), base_flags() & !bits(&[ESS]) | bits(&[LM_KEY, VERSION]), base_flags() & !bits(&[KEY_EXCH]), base_flags() & !bits(&[ESS, SIGN, SEAL]) | bits(&[NON_NT])];
    let words = short_words(if deep { 5 } else { 4 });
    let mut out = vec![];
    {
        // One or both halves of the LM hash used, in full or not
        let short: Vec<String> = ["ж☃日", "Zq#9~!", "Zq#9~!K", "ZQ#9~!K", "Zq#9~!Kz", "Zq#9~!Kz@4%Qx", "Zq#9~!Kz@4%QxW", "Zq#9~!Kz@4%QxWv", "ßßßß", "ﬃﬃ#"].iter().map(|s| s.to_string()).collect();
        let words = short_words(3);
        let n = words.len() * short.len() * LEVELS.len() * 2 * flags.len();
        out.push(
            Space::of(
                "level x password by length x every short word of calls x flags x account name",
                n as u64,
                move |i| {
                    let mut m = Mix(i);
                    let src = Src::Wire(chal(*m.of(&flags), short_infos()));
                    Talk { level: *m.of(&LEVELS), cr: creds("jdoe", "CORP", m.of(&short)), account: m.flag(), src, ops: m.of(&words).clone() }
                },
                run_talk,
            )
            .must_see(&["sent", "refused"]),
        );
    }
    {
        let pw = pw.clone();
        let n = words.len() * pw.len() * LEVELS.len() * 2 * 2 * flags.len();
        out.push(
            Space::of(
                "level x password x every short word of calls x flags x from the wire or built x account name",
                n as u64,
                move |i| {
                    let mut m = Mix(i);
                    let c = chal(*m.of(&flags), short_infos());
                    let src = if m.flag() { Src::Built(c) } else { Src::Wire(c) };
                    Talk { level: *m.of(&LEVELS), cr: creds("jdoe", "CORP", m.of(&pw)), account: m.flag(), src, ops: m.of(&words).clone() }
                },
                run_talk,
            )
            .must_see(&["sent", "refused"]),
        );
    }
    {
        let pw = pw.clone();
        const SOME: [u32; 12] = [UNICODE, OEM, SIGN, SEAL, LM_KEY, NTLM, ESS, NON_NT, KEY_EXCH, TARGET_INFO, N128, VERSION];
        let infos = [vec![], short_infos(), full_infos()];
        let n = (1u64 << SOME.len()) * 6 * infos.len() as u64 * if deep { pw.len() as u64 } else { 1 };
        out.push(
            Space::of(
                "level x subset of 12 flags x target information x password",
                n,
                move |i| {
                    let mut m = Mix(i);
                    let mut f = bits(&[REQUEST_TARGET]);
                    for b in SOME {
                        if m.flag() {
                            f |= 1 << b;
                        }
                    }
                    let level = m.pick(6) as u32;
                    let c = chal(f, m.of(&infos).clone());
                    let p = m.of(&pw).clone();
                    Talk { level, cr: creds("jdoe", "CORP", &p), account: false, src: Src::Wire(c), ops: vec![Op::Negotiate, Op::Challenge(0), Op::Authenticate, Op::Authenticate] }
                },
                run_talk,
            )
            .must_see(&["sent"]),
        );
    }
    {
        let two = super::seq::departed().two;
        let pw = pw.clone();
        out.push(
            Space::of(
                "level x CHALLENGE with up to two departures from the usual one x password",
                6 * 2 * two as u64,
                move |i| {
                    let mut m = Mix(i);
                    let level = m.pick(6) as u32;
                    let p = if m.flag() { pw[0].clone() } else { "Zq#9~!".to_string() };
                    let c = super::seq::departed().get(m.0 as usize);
                    Talk { level, cr: creds("jdoe", "CORP", &p), account: false, src: Src::Wire(c), ops: vec![Op::Negotiate, Op::Challenge(0), Op::Authenticate, Op::Challenge(0), Op::Authenticate] }
                },
                run_talk,
            )
            .must_see(&["sent"]),
        );
    }
    {
        let users = ["", "jdoe", "jdöe", "j", "a\\b", "x@y", "JDOE-from-somewhere-far-away"];
        let n = 6 * pw.len() * users.len() * users.len() * 32;
        out.push(
            Space::of(
                "level x password x user x domain x one flag changed",
                n as u64,
                move |i| {
                    let mut m = Mix(i);
                    let level = m.pick(6) as u32;
                    let f = base_flags() ^ 1 << m.pick(32);
                    let p = m.of(&pw).clone();
                    let (u, d) = (*m.of(&users), *m.of(&users));
                    Talk { level, cr: creds(u, d, &p), account: false, src: Src::Wire(chal(f, short_infos())), ops: vec![Op::Negotiate, Op::Challenge(0), Op::Authenticate] }
                },
                run_talk,
            )
            .must_see(&["sent"]),
        );
    }
    out
}
