//! Reference server: what MS-NLMP section 3.3 computes from the password and the messages.
//! Hash functions and ciphers come from the RustCrypto crates; everything above is written here.

use crate::spec::*;
use des::cipher::{BlockEncrypt, KeyInit};
use hmac::Mac;
use md4::Digest;

pub fn md4(b: &[u8]) -> [u8; 16] {
    md4::Md4::digest(b).into()
}
pub fn md5(b: &[u8]) -> [u8; 16] {
    md5::Md5::digest(b).into()
}
pub fn hmac_md5(key: &[u8], parts: &[&[u8]]) -> [u8; 16] {
    let mut m = <hmac::Hmac<md5::Md5> as Mac>::new_from_slice(key).unwrap();
    for p in parts {
        m.update(p);
    }
    m.finalize().into_bytes().into()
}
/// DES with the 56 key bits spread over 8 bytes (the parity bits do not matter).
pub fn des7(key: &[u8], block: &[u8]) -> [u8; 8] {
    let mut k: u64 = 0;
    for b in &key[..7] {
        k = k << 8 | *b as u64;
    }
    let mut k8 = [0u8; 8];
    for (i, b) in k8.iter_mut().enumerate() {
        *b = ((k >> (49 - 7 * i)) as u8 & 0x7f) << 1;
    }
    let c = des::Des::new_from_slice(&k8).unwrap();
    let mut out = *des::cipher::generic_array::GenericArray::from_slice(block);
    c.encrypt_block(&mut out);
    out.into()
}
pub fn desl(key: &[u8; 16], block: &[u8]) -> [u8; 24] {
    let mut k = [0u8; 21];
    k[..16].copy_from_slice(key);
    let mut out = [0u8; 24];
    for i in 0..3 {
        out[8 * i..8 * i + 8].copy_from_slice(&des7(&k[7 * i..7 * i + 7], block));
    }
    out
}
pub fn rc4(key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut s: Vec<u8> = (0..=255).collect();
    let mut j = 0u8;
    for i in 0..256 {
        j = j.wrapping_add(s[i]).wrapping_add(key[i % key.len()]);
        s.swap(i, j as usize);
    }
    let (mut i, mut j) = (0u8, 0u8);
    data.iter()
        .map(|b| {
            i = i.wrapping_add(1);
            j = j.wrapping_add(s[i as usize]);
            s.swap(i as usize, j as usize);
            b ^ s[s[i as usize].wrapping_add(s[j as usize]) as usize]
        })
        .collect()
}

pub fn upper(s: &str) -> String {
    s.chars().flat_map(|c| c.to_uppercase()).collect()
}

pub fn ntowf(password: &str) -> [u8; 16] {
    md4(&utf16(password))
}
pub fn lmowf(password: &str) -> [u8; 16] {
    let mut p = upper(password).into_bytes();
    p.resize(14, 0);
    let mut out = [0u8; 16];
    out[..8].copy_from_slice(&des7(&p[..7], b"KGS!@#$%"));
    out[8..].copy_from_slice(&des7(&p[7..], b"KGS!@#$%"));
    out
}
pub fn ntowf2(nt: &[u8; 16], user: &str, domain: &str) -> [u8; 16] {
    hmac_md5(nt, &[&utf16(&upper(user)), &utf16(domain)])
}

/// What the server stores for an account.
#[derive(Clone, Debug)]
pub struct Keys {
    pub nt: [u8; 16],
    pub lm: [u8; 16],
    pub v2: [u8; 16],
}
pub fn keys(password: &str, user: &str, domain: &str) -> Keys {
    let nt = ntowf(password);
    Keys { nt, lm: lmowf(password), v2: ntowf2(&nt, user, domain) }
}

/// KXKEY of NTLMv1
pub fn kxkey_v1(flags: u32, k: &Keys, sc: &[u8; 8], lm_response: &[u8; 24]) -> [u8; 16] {
    let base = md4(&k.nt);
    let mut out = [0u8; 16];
    if has(flags, bit::ESS) {
        return hmac_md5(&base, &[sc, &lm_response[..8]]);
    }
    if has(flags, bit::LM_KEY) {
        out[..8].copy_from_slice(&des7(&k.lm[..7], &lm_response[..8]));
        let mut second = [0xbd; 7];
        second[0] = k.lm[7];
        out[8..].copy_from_slice(&des7(&second, &lm_response[..8]));
        return out;
    }
    if has(flags, bit::NON_NT) {
        out[..8].copy_from_slice(&k.lm[..8]);
        return out;
    }
    base
}

pub fn exchanges_key(flags: u32) -> bool {
    has(flags, bit::KEY_EXCH) && (has(flags, bit::SIGN) || has(flags, bit::SEAL))
}

/// The key exchange key of an accepted AUTHENTICATE message.
pub fn kxkey(flags: u32, k: &Keys, sc: &[u8; 8], a: &Auth) -> Result<[u8; 16], String> {
    match &a.nt {
        Some(Nt::V1(_)) => {
            let lm = a.lm.as_ref().ok_or("no LM response")?;
            Ok(kxkey_v1(flags, k, sc, lm.bytes()))
        }
        Some(Nt::V2R(proof, _)) => Ok(hmac_md5(&k.v2, &[proof])),
        other => Err(format!("no NT response a server could use: {other:x?}")),
    }
}

/// The session key the server ends with.
pub fn session_key(flags: u32, k: &Keys, sc: &[u8; 8], a: &Auth) -> Result<[u8; 16], String> {
    let kek = kxkey(flags, k, sc, a)?;
    if exchanges_key(flags) {
        let enc = a.key.ok_or("key exchange was negotiated but no key was sent")?;
        Ok(rc4(&kek, &enc).try_into().unwrap())
    } else {
        Ok(kek)
    }
}

/// Verifies the responses of an NTLMv1 AUTHENTICATE message.
pub fn verify_v1(level: u32, flags: u32, k: &Keys, sc: &[u8; 8], a: &Auth) -> Result<(), String> {
    let nt = match &a.nt {
        Some(Nt::V1(r)) => *r,
        other => return Err(format!("NT response is not an NTLMv1 response: {other:x?}")),
    };
    let lm = match &a.lm {
        Some(Lm::V1(r)) => *r,
        other => return Err(format!("LM response is not an NTLMv1 response: {other:x?}")),
    };
    if has(flags, bit::ESS) {
        if lm[8..] != [0; 16] {
            return Err(format!("LM response is not the zero-padded client challenge: {lm:x?}"));
        }
        let mut both = sc.to_vec();
        both.extend(&lm[..8]);
        let want = desl(&k.nt, &md5(&both)[..8]);
        if nt != want {
            return Err(format!("NT response {nt:x?} does not verify, expected {want:x?}"));
        }
    } else {
        let want = desl(&k.nt, sc);
        if nt != want {
            return Err(format!("NT response {nt:x?} does not verify, expected {want:x?}"));
        }
        let want = if level == 0 { desl(&k.lm, sc) } else { want };
        if lm != want {
            return Err(format!("LM response {lm:x?} does not verify, expected {want:x?}"));
        }
    }
    Ok(())
}

/// Verifies the responses of an NTLMv2 AUTHENTICATE message, from its raw bytes.
pub fn verify_v2(k: &Keys, c: &Chal, now: u64, a: &[u8]) -> Result<(), String> {
    let r = Reader { b: a };
    let nt = r.field(20).ok_or("NT response outside of the message")?;
    if nt.len() < 16 + 28 {
        return Err(format!("NT response is no NTLMv2 response: {nt:x?}"));
    }
    let (proof, blob) = nt.split_at(16);
    let want = hmac_md5(&k.v2, &[&c.sc, blob]);
    if proof != want {
        return Err(format!("proof {proof:x?} does not verify, expected {want:x?}"));
    }
    // With several timestamps, any of them is the timestamp of the server
    let sent = u64::from_le_bytes(blob[8..16].try_into().unwrap());
    let times: Vec<u64> = c.infos.iter().filter_map(|a| if let Av::Time(t) = a { Some(*t) } else { None }).collect();
    let time = if times.contains(&sent) { sent } else { times.first().copied().unwrap_or(now) };
    let lm = r.field(12).ok_or("LM response outside of the message")?;
    if lm.len() != 24 {
        return Err(format!("LM response is no LMv2 response: {lm:x?}"));
    }
    let cc: [u8; 8] = lm[16..].try_into().unwrap();
    let mut want = blob_bytes(&Blob { time, cc, infos: c.infos.clone() });
    want.extend([0; 4]);
    if blob != &want[..] {
        return Err(format!("blob is {blob:x?}, expected {want:x?}"));
    }
    let want = hmac_md5(&k.v2, &[&c.sc, &cc]);
    if lm[..16] != want {
        return Err(format!("LM response {lm:x?} does not verify, expected {want:x?}"));
    }
    Ok(())
}

/// Where the integrity code of an AUTHENTICATE message is.
pub fn mic_at(flags: u32) -> usize {
    if has(flags, bit::VERSION) {
        72
    } else {
        64
    }
}

pub fn mic(key: &[u8; 16], neg: &[u8], chal: &[u8], auth: &[u8]) -> [u8; 16] {
    let mut a = auth.to_vec();
    let at = mic_at(u32_at(auth, 60));
    a[at..at + 16].fill(0);
    hmac_md5(key, &[neg, chal, &a])
}

/// Checks the reference itself against the examples of MS-NLMP section 4.2.
pub fn self_test() {
    let h = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let k = keys("Password", "User", "Domain");
    assert_eq!(k.lm[..], h("e52cac67419a9a224a3b108f3fa6cb6d"));
    assert_eq!(k.nt[..], h("a4f49c406510bdcab6824ee7c30fd852"));
    assert_eq!(k.v2[..], h("0c868a403bfd7a93a3001ef22ef02e3f"));
    let sc = [0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef];
    assert_eq!(md4(&k.nt)[..], h("d87262b0cde4b1cb7499becccdf10784"));
    // 4.2.2: NTLMv1
    let nt = desl(&k.nt, &sc);
    let lm = desl(&k.lm, &sc);
    assert_eq!(nt[..], h("67c43011f30298a2ad35ece64f16331c44bdbed927841f94"));
    assert_eq!(lm[..], h("98def7b87f88aa5dafe2df779688a172def11c7d5ccdef13"));
    assert_eq!(kxkey_v1(1 << bit::NON_NT, &k, &sc, &lm)[..], h("e52cac67419a9a220000000000000000"));
    assert_eq!(kxkey_v1(1 << bit::LM_KEY, &k, &sc, &lm)[..], h("b09e379f7fbecb1eaf0afdcb0383c8a0"));
    assert_eq!(rc4(&k_base(&k), &[0x55; 16]), h("518822b1b3f350c8958682ecbb3e3cb7"));
    // 4.2.3: NTLMv1 with extended session security
    let mut lm = [0u8; 24];
    lm[..8].fill(0xaa);
    let mut both = sc.to_vec();
    both.extend([0xaa; 8]);
    assert_eq!(desl(&k.nt, &md5(&both)[..8])[..], h("7537f803ae367128ca458204bde7caf81e97ed2683267232"));
    assert_eq!(kxkey_v1(1 << bit::ESS, &k, &sc, &lm)[..], h("eb93429a8bd952f8b89c55b87f475edc"));
    // 4.2.4: NTLMv2
    let infos = vec![Av::Name(2, "Domain".into()), Av::Name(1, "Server".into()), Av::Eol];
    let mut blob = blob_bytes(&Blob { time: 0, cc: [0xaa; 8], infos });
    blob.extend([0; 4]);
    let proof = hmac_md5(&k.v2, &[&sc, &blob]);
    assert_eq!(proof[..], h("68cd0ab851e51c96aabc927bebef6a1c"));
    assert_eq!(hmac_md5(&k.v2, &[&proof])[..], h("8de40ccadbc14a82f15cb0ad0de95ca3"));
    assert_eq!(hmac_md5(&k.v2, &[&sc, &[0xaa; 8]])[..], h("86c35097ac9cec102554764a57cccc19"));
    assert_eq!(rc4(&hmac_md5(&k.v2, &[&proof]), &[0x55; 16]), h("c5dad2544fc9799094ce1ce90bc9d03e"));
}
fn k_base(k: &Keys) -> [u8; 16] {
    md4(&k.nt)
}
