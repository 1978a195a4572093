//! The code under test: conversions between its values and those of the model, its codecs and its
//! clients.

use crate::spec::*;
use http_ntlm::client::Client;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::structures::AvPair;
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use http_ntlm::verif;
use http_ntlm::NtlmVersion;

fn arr<const N: usize>(d: &[u8]) -> [u8; N] {
    d.try_into().expect("length of a fixed-size value")
}

// ---------------------------------------------------------------- real -> model

pub fn ver_m(v: &st::Version) -> Ver {
    Ver { major: v.major, minor: v.minor, build: v.build, rev: v.revision_count }
}
pub fn av_flags_m(f: &st::MsvAvFlags) -> u32 {
    f.account_authentication_constrained as u32
        | (f.mic_present as u32) << 1
        | (f.generated_spn_from_untrusted_source as u32) << 2
}
pub fn av_m(a: &AvPair) -> Av {
    match a {
        AvPair::MsvAvEOL => Av::Eol,
        AvPair::MsvAvNbComputerName(s) => Av::Name(1, s.clone()),
        AvPair::MsvAvNbDomainName(s) => Av::Name(2, s.clone()),
        AvPair::MsvAvDnsComputerName(s) => Av::Name(3, s.clone()),
        AvPair::MsvAvDnsDomainName(s) => Av::Name(4, s.clone()),
        AvPair::MsvAvDnsTreeName(s) => Av::Name(5, s.clone()),
        AvPair::MsvAvTargetName(s) => Av::Name(9, s.clone()),
        AvPair::MsvAvFlags(f) => Av::Flags(av_flags_m(f)),
        AvPair::MsvAvTimestamp(t) => Av::Time(ft_m(t)),
        AvPair::MsvAvSingleHost(h) => Av::Host { size: h.size, z4: h.z4, custom: h.custom_data, machine: h.machine_id },
        AvPair::MsvAvChannelBindings(c) => Av::Chan(*c),
    }
}
pub fn ft_m(t: &st::FileTime) -> u64 {
    (t.high as u64) << 32 | t.low as u64
}
pub fn neg_m(n: &Negotiate) -> Neg {
    Neg {
        flags: n.negotiate_flags.0,
        domain: n.get_domain_name().cloned(),
        ws: n.get_workstation().cloned(),
        ver: n.version.as_ref().map(ver_m),
    }
}
pub fn chal_m(c: &Challenge) -> Chal {
    Chal {
        flags: c.negotiate_flags.0,
        name: c.get_target_name().map(|s| s.to_string()),
        sc: arr(&c.server_challenge),
        infos: c.get_target_infos().iter().map(av_m).collect(),
        ver: c.version.as_ref().map(ver_m),
    }
}
pub fn lm_m(l: &st::LmChallenge) -> Lm {
    match l {
        st::LmChallenge::V1(v) => Lm::V1(arr(&v.response)),
        st::LmChallenge::V2(v) => {
            let mut b = [0; 24];
            b[..16].copy_from_slice(&v.response);
            b[16..].copy_from_slice(&v.challenge_from_client);
            Lm::V2(b)
        }
    }
}
pub fn blob_m(b: &st::Ntv2Challenge) -> Blob {
    Blob {
        time: ft_m(&b.timestamp),
        cc: arr(&b.challenge_from_client),
        infos: b.target_infos.iter().map(av_m).collect(),
    }
}
pub fn nt_m(n: &st::NtChallenge) -> Nt {
    match n {
        st::NtChallenge::V1(v) => Nt::V1(arr(&v.response)),
        st::NtChallenge::V2(b) => Nt::V2(blob_m(b)),
        #[cfg(not(http_ntlm_no_proof))]
        st::NtChallenge::V2Response(r) => Nt::V2R(arr(&r.nt_proof_str), blob_m(&r.challenge)),
    }
}
pub fn auth_m(a: &Authenticate) -> Auth {
    Auth {
        lm: a.lm_challenge_response.as_ref().map(lm_m),
        nt: a.nt_challenge_response.as_ref().map(nt_m),
        domain: a.domain.as_ref().map(|s| s.to_string()),
        user: a.user.as_ref().map(|s| s.to_string()),
        ws: a.workstation.as_ref().map(|s| s.to_string()),
        key: a.get_encrypted_random_session_key().map(|k| arr(k)),
        flags: a.negotiate_flags.0,
        ver: a.version.as_ref().map(ver_m),
        mic: arr(&a.mic),
    }
}

// ---------------------------------------------------------------- model -> real

pub fn ver_r(v: &Ver) -> st::Version {
    st::Version { major: v.major, minor: v.minor, build: v.build, revision_count: v.rev }
}
pub fn av_flags_r(f: u32) -> st::MsvAvFlags {
    st::MsvAvFlags {
        account_authentication_constrained: f & 1 != 0,
        mic_present: f & 2 != 0,
        generated_spn_from_untrusted_source: f & 4 != 0,
    }
}
pub fn ft_r(t: u64) -> st::FileTime {
    st::FileTime { low: t as u32, high: (t >> 32) as u32 }
}
pub fn host_r(size: u32, z4: u32, custom: [u8; 8], machine: [u8; 32]) -> st::SingleHostData {
    st::SingleHostData { size, z4, custom_data: custom, machine_id: machine }
}
pub fn av_r(a: &Av) -> AvPair {
    match a {
        Av::Eol => AvPair::MsvAvEOL,
        Av::Name(1, s) => AvPair::MsvAvNbComputerName(s.clone()),
        Av::Name(2, s) => AvPair::MsvAvNbDomainName(s.clone()),
        Av::Name(3, s) => AvPair::MsvAvDnsComputerName(s.clone()),
        Av::Name(4, s) => AvPair::MsvAvDnsDomainName(s.clone()),
        Av::Name(5, s) => AvPair::MsvAvDnsTreeName(s.clone()),
        Av::Name(9, s) => AvPair::MsvAvTargetName(s.clone()),
        Av::Name(id, _) => panic!("no name has identifier {id}"),
        Av::Flags(f) => AvPair::MsvAvFlags(av_flags_r(*f)),
        Av::Time(t) => AvPair::MsvAvTimestamp(ft_r(*t)),
        Av::Host { size, z4, custom, machine } => AvPair::MsvAvSingleHost(host_r(*size, *z4, *custom, *machine)),
        Av::Chan(c) => AvPair::MsvAvChannelBindings(*c),
    }
}
pub fn neg_r(n: &Neg) -> Negotiate {
    let mut r = Negotiate::default();
    r.set_domain_name(n.domain.clone());
    r.set_workstation(n.ws.clone());
    r.version = n.ver.as_ref().map(ver_r);
    r.negotiate_flags = Flags(n.flags);
    r
}
/// Adds one pair through the builder.
pub fn add_info(c: &mut Challenge, a: &Av) {
    match a {
        Av::Eol => panic!("the builder terminates the list"),
        Av::Name(1, s) => c.target_infos_add_computername(s.as_str()),
        Av::Name(2, s) => c.target_infos_add_domainname(s.as_str()),
        Av::Name(3, s) => c.target_infos_add_dnscomputername(s.as_str()),
        Av::Name(4, s) => c.target_infos_add_dnsdomainname(s.as_str()),
        Av::Name(5, s) => c.target_infos_add_dnstreename(s.as_str()),
        Av::Name(9, s) => c.target_infos_add_targetname(s.as_str()),
        Av::Name(id, _) => panic!("no name has identifier {id}"),
        Av::Flags(f) => c.target_infos_add_flags(av_flags_r(*f)),
        Av::Time(t) => c.target_infos_add_timestamp(ft_r(*t)),
        Av::Host { size, z4, custom, machine } => c.target_infos_add_singlehost(host_r(*size, *z4, *custom, *machine)),
        Av::Chan(h) => c.target_infos_add_channelbindings(*h),
    };
}
/// Through the builder if the target information has the form it produces (pairs and one end).
pub fn chal_r(c: &Chal) -> Challenge {
    let mut r = Challenge::default();
    r.set_target_name(c.name.as_deref());
    if let Some((last, pairs)) = c.infos.split_last() {
        assert_eq!(*last, Av::Eol);
        assert!(!pairs.is_empty() && !pairs.contains(&Av::Eol), "not a list of the builder");
        for a in pairs {
            add_info(&mut r, a);
        }
    }
    r.server_challenge = c.sc.into();
    r.version = c.ver.as_ref().map(ver_r);
    r.negotiate_flags = Flags(c.flags);
    r
}
pub fn lm_r(l: &Lm) -> st::LmChallenge {
    match l {
        Lm::V1(b) => st::Lmv1Challenge { response: (*b).into() }.into(),
        Lm::V2(b) => {
            let r: [u8; 16] = arr(&b[..16]);
            let c: [u8; 8] = arr(&b[16..]);
            st::Lmv2Challenge { response: r.into(), challenge_from_client: c.into() }.into()
        }
    }
}
pub fn blob_r(b: &Blob) -> st::Ntv2Challenge {
    st::Ntv2Challenge {
        timestamp: ft_r(b.time),
        challenge_from_client: b.cc.into(),
        target_infos: b.infos.iter().map(av_r).collect(),
    }
}
pub fn nt_r(n: &Nt) -> st::NtChallenge {
    match n {
        Nt::V1(b) => st::Ntv1Challenge { response: (*b).into() }.into(),
        Nt::V2(b) => blob_r(b).into(),
        // A tree that knows no proof (before the repair) sends the rest
        #[cfg(http_ntlm_no_proof)]
        Nt::V2R(_, b) => blob_r(b).into(),
        #[cfg(not(http_ntlm_no_proof))]
        Nt::V2R(p, b) => st::Ntv2Response { nt_proof_str: (*p).into(), challenge: blob_r(b) }.into(),
    }
}
pub fn auth_r(a: &Auth) -> Authenticate {
    let mut r = Authenticate::default();
    r.lm_challenge_response = a.lm.as_ref().map(lm_r);
    r.nt_challenge_response = a.nt.as_ref().map(nt_r);
    r.domain = a.domain.as_deref().map(|s| s.into());
    r.user = a.user.as_deref().map(|s| s.into());
    r.workstation = a.ws.as_deref().map(|s| s.into());
    r.set_encrypted_random_session_key(a.key.map(|k| k.into()));
    r.version = a.ver.as_ref().map(ver_r);
    r.mic = a.mic.into();
    r.negotiate_flags = Flags(a.flags);
    r
}

// ---------------------------------------------------------------- codecs

/// Encodes with the code under test: bytes and reported byte count.
pub fn enc(m: &Msg) -> (Vec<u8>, usize) {
    match m {
        Msg::Neg(n) => verif::negotiate::encode(&neg_r(n)),
        Msg::Chal(c) => verif::challenge::encode(&chal_r(c)),
        Msg::Auth(a) => verif::authenticate::encode(&auth_r(a)),
    }
}
pub fn dec(kind: Kind, b: &[u8]) -> Option<Msg> {
    match kind {
        Kind::Neg => verif::negotiate::decode(b).map(|(v, _)| Msg::Neg(neg_m(&v))),
        Kind::Chal => verif::challenge::decode(b).map(|(v, _)| Msg::Chal(chal_m(&v))),
        Kind::Auth => verif::authenticate::decode(b).map(|(v, _)| Msg::Auth(auth_m(&v))),
    }
}
pub fn dec_chal_real(b: &[u8]) -> Option<Challenge> {
    verif::challenge::decode(b).map(|(v, _)| v)
}

/// Every decoder; the returned number of unread bytes must not exceed the input.
pub const DECODERS: &[(&str, fn(&[u8]) -> Option<usize>)] = &[
    ("negotiate", |b| verif::negotiate::decode(b).map(|v| v.1)),
    ("challenge", |b| verif::challenge::decode(b).map(|v| v.1)),
    ("authenticate", |b| verif::authenticate::decode(b).map(|v| v.1)),
    ("flags", |b| verif::flags::decode(b).map(|v| v.1)),
    ("version", |b| verif::version::decode(b).map(|v| v.1)),
    ("filetime", |b| verif::filetime::decode(b).map(|v| v.1)),
    ("single_host_data", |b| verif::single_host_data::decode(b).map(|v| v.1)),
    ("av_flags", |b| verif::av_flags::decode(b).map(|v| v.1)),
    ("av_pair", |b| verif::av_pair::decode(b).map(|v| v.1)),
    ("av_pairs", |b| verif::av_pairs::decode(b).map(|v| v.1)),
    ("lmv1", |b| verif::lmv1::decode(b).map(|v| v.1)),
    ("lmv2", |b| verif::lmv2::decode(b).map(|v| v.1)),
    ("lm", |b| verif::lm::decode(b).map(|v| v.1)),
    ("ntv1", |b| verif::ntv1::decode(b).map(|v| v.1)),
    ("ntv2", |b| verif::ntv2::decode(b).map(|v| v.1)),
    ("nt", |b| verif::nt::decode(b).map(|v| v.1)),
    ("signature", |b| verif::signature::decode(b).map(|v| v.1)),
    ("mic", |b| verif::mic::decode(b).map(|v| v.1)),
    ("server_challenge", |b| verif::server_challenge::decode(b).map(|v| v.1)),
    ("session_key", |b| verif::session_key::decode(b).map(|v| v.1)),
];

// ---------------------------------------------------------------- clients

pub struct Level<const N: u32>;
impl<const N: u32> NtlmVersion for Level<N> {
    fn version() -> u32 {
        N
    }
}

/// A level that is chosen when the program runs, the same for all calls of one client of this thread.
pub struct AnyLevel;
thread_local! {
    static ANY: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
impl NtlmVersion for AnyLevel {
    fn version() -> u32 {
        ANY.with(|l| l.get())
    }
}

/// Whether the hook to look at a client's session key could be compiled
pub const SESSION: bool = cfg!(http_ntlm_verif = "session");

/// A client of some level. The methods panic if the code under test does.
pub trait Cl: Send {
    fn negotiate(&mut self) -> Vec<u8>;
    fn challenge(&mut self, c: Challenge);
    fn authenticate(&mut self) -> Vec<u8>;
    /// The session key the client holds after AUTHENTICATE
    fn session_key(&self) -> Option<[u8; 16]>;
}

impl<V: NtlmVersion + Send> Cl for Client<V>
where
    Client<V>: Send,
{
    fn negotiate(&mut self) -> Vec<u8> {
        self.send_negociate().to_vec()
    }
    fn challenge(&mut self, c: Challenge) {
        self.recv_challenge(c)
    }
    fn authenticate(&mut self) -> Vec<u8> {
        self.send_authenticate().to_vec()
    }
    #[cfg(not(http_ntlm_verif = "session"))]
    fn session_key(&self) -> Option<[u8; 16]> {
        None
    }
    #[cfg(http_ntlm_verif = "session")]
    fn session_key(&self) -> Option<[u8; 16]> {
        self.verif_session().and_then(|(_, _, a)| a.exported_session_key.as_ref().map(|k| arr(k)))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Creds {
    pub user: String,
    pub domain: String,
    pub password: String,
}

pub fn creds(user: &str, domain: &str, password: &str) -> Creds {
    Creds { user: user.into(), domain: domain.into(), password: password.into() }
}

type Make<A> = fn(&A) -> Box<dyn Cl>;

fn dispatch<A>(level: u32, makers: [Make<A>; 9]) -> Make<A> {
    match level {
        0..=6 => makers[level as usize],
        u32::MAX => makers[7],
        n => {
            ANY.with(|l| l.set(n));
            makers[8]
        }
    }
}

macro_rules! makers {
    ($f:ident) => {
        [$f::<Level<0>>, $f::<Level<1>>, $f::<Level<2>>, $f::<Level<3>>, $f::<Level<4>>, $f::<Level<5>>, $f::<Level<6>>, $f::<Level<{ u32::MAX }>>, $f::<AnyLevel>]
    };
}

thread_local! {
    static ROOM: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// The texts that clients of this thread are built from have room for so many bytes more.
pub fn with_room<T>(room: usize, f: impl FnOnce() -> T) -> T {
    ROOM.with(|r| r.set(room));
    let v = f();
    ROOM.with(|r| r.set(0));
    v
}
fn text(s: &str) -> String {
    let mut t = String::with_capacity(s.len() + ROOM.with(|r| r.get()));
    t.push_str(s);
    t
}

pub fn client(level: u32, c: &Creds) -> Box<dyn Cl> {
    fn mk<V: NtlmVersion + Send + 'static>(c: &Creds) -> Box<dyn Cl> {
        Box::new(Client::<V>::new_with_domain(
            text(&c.user),
            text(&c.domain),
            text(&c.password),
            "target".into(),
        ))
    }
    dispatch(level, makers!(mk))(c)
}

/// A client from a single account name.
pub fn client_account(level: u32, account: &str, password: &str) -> Box<dyn Cl> {
    fn mk<V: NtlmVersion + Send + 'static>(c: &(String, String)) -> Box<dyn Cl> {
        Box::new(Client::<V>::new(c.0.clone(), c.1.clone(), "target".into()))
    }
    dispatch(level, makers!(mk))(&(account.to_string(), password.to_string()))
}
