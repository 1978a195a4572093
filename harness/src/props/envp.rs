//! What the environment (variables, host name file) does to clients and messages.

use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use crate::props::hs::{ticks, usual, NOW};
use crate::real::*;
use crate::server;
use crate::spec::bit::*;
use crate::spec::*;

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug)]
struct Station {
    level: u32,
    /// COMPUTERNAME; the outer `None` leaves what the space has set
    var: Option<Option<Vec<u8>>>,
    file: Result<Vec<u8>, i32>,
}

/// The workstation names that may be sent.
fn expected(var: Option<&[u8]>, file: &Result<Vec<u8>, i32>) -> Vec<String> {
    if let Some(s) = var.and_then(|v| std::str::from_utf8(v).ok()) {
        return vec![s.to_string()];
    }
    let Ok(content) = file else { return vec![String::new()] };
    let first: &[u8] = content.split(|b| *b == b'\n').next().unwrap_or(&[]);
    let Ok(first) = std::str::from_utf8(first) else { return vec![String::new()] };
    let name = server::upper(first.split('.').next().unwrap().trim());
    let mut v = vec![name];
    if std::str::from_utf8(content).is_err() {
        // A later line is no text: the file is unreadable as text, or its first line is good
        v.push(String::new());
    }
    v
}

fn run_station(c: &Station, o: &mut Obs) -> Res {
    use std::os::unix::ffi::OsStrExt;
    if let Some(v) = &c.var {
        set_var("COMPUTERNAME", v.as_deref());
    }
    let now = std::env::var_os("COMPUTERNAME");
    let want = expected(now.as_ref().map(|v| v.as_bytes()), &c.file);
    let cr = usual();
    let f = base_flags();
    let chal = Chal { flags: f, name: some("S"), sc: pattern(0x81), infos: short_infos(), ver: None };
    let (r, _) = with_rng(rng_key(1), || {
        with_clock(NOW.0, NOW.1, || {
            let mut cl = with_hostname(c.file.clone(), || guard(|| client(c.level, &cr))).map_err(|e| format!("building the client panicked: {e}"))?;
            let bytes = with_hostname(c.file.clone(), || {
                guard(|| {
                    cl.negotiate();
                    cl.challenge(chal_r(&chal));
                    cl.authenticate()
                })
            })
            .map_err(|e| format!("the handshake panicked: {e}"))?;
            o.steps(4);
            let m = parse(Kind::Auth, &bytes).map_err(|e| format!("the AUTHENTICATE message is malformed: {e}"))?;
            let a = m.auth();
            let k = server::keys(&cr.password, &cr.user, &cr.domain);
            if c.level <= 2 {
                server::verify_v1(c.level, f, &k, &chal.sc, a)?;
            } else {
                server::verify_v2(&k, &chal, ticks(NOW.0, NOW.1), &bytes)?;
            }
            let got = a.ws.clone().unwrap_or_default();
            o.state(&(c.level, &got));
            o.outcome(match (now.is_some(), got.is_empty()) {
                (true, false) => "from the variable or file",
                (false, false) => "from the file",
                (_, true) => "absent",
            });
            if !want.contains(&got) {
                return Err(format!("the workstation is {got:?}, expected {want:?}"));
            }
            Ok(())
        })
    });
    r
}

const PIECES: &[&[u8]] = &[b"a", b"B", b".", b"\n", b"\r", b" ", b"\t", "é".as_bytes(), "ß".as_bytes(), "😀".as_bytes(), b"\xff", b"\xc3", b"\0", b"-"];

fn bytes_at(alphabet: &[&[u8]], i: u64) -> Vec<u8> {
    seq_at(alphabet.len() as u64, i).into_iter().flat_map(|l| alphabet[l].to_vec()).collect()
}

pub fn c21(deep: bool) -> Vec<Space> {
    let k = PIECES.len() as u64;
    let depth = if deep { 6 } else { 5 };
    let mut v = vec![
        Space::of(
            &format!("host name files of up to {depth} pieces, COMPUTERNAME not set"),
            seq_count(k, depth),
            |i| Station { level: if i % 2 == 0 { 3 } else { 0 }, var: None, file: Ok(bytes_at(PIECES, i)) },
            run_station,
        )
        .var("COMPUTERNAME", None)
        .must_see(&["from the file", "absent"]),
        Space::of(
            "every character as host name, COMPUTERNAME not set",
            SCALARS * if deep { 2 } else { 1 },
            |i| {
                let c = scalar(i % SCALARS);
                let s = if i < SCALARS { format!("{c}") } else { format!("a{c}b.c\nd") };
                Station { level: 3, var: None, file: Ok(s.into_bytes()) }
            },
            run_station,
        )
        .var("COMPUTERNAME", None),
        Space::of(
            "levels x every error number of opening the host name file, COMPUTERNAME not set",
            6 * 133,
            |i| {
                let e = (i / 6) as i32 + 1;
                // An open that is interrupted for ever is tried for ever
                Station { level: (i % 6) as u32, var: None, file: Err(if e == libc::EINTR { libc::ENOENT } else { e }) }
            },
            run_station,
        )
        .var("COMPUTERNAME", None),
        Space::of(
            "host name files by length of the first line, with and without more lines",
            4 * 3 * 400,
            |i| {
                let mut m = Mix(i);
                let unit = *m.of(&["h", "é", "a.b", "日"]);
                let tail = *m.of(&["", "\n", "\nsecond\nthird.x\n"]);
                let mut s = unit.repeat(m.0 as usize);
                s.push_str(tail);
                Station { level: 4, var: None, file: Ok(s.into_bytes()) }
            },
            run_station,
        )
        .var("COMPUTERNAME", None),
        Space::of(
            "meaningful words as host name, COMPUTERNAME not set",
            (dictionary().len() * (dictionary().len() + 4)) as u64 * 2,
            |i| {
                let mut m = Mix(i);
                let level = if m.flag() { 4 } else { 1 };
                let first = *m.of(dictionary());
                let k = m.0 as usize;
                let tail = match k {
                    0 => "",
                    1 => "\n",
                    2 => ".example\n",
                    3 => "\nsecond",
                    k => dictionary()[k - 4],
                };
                Station { level, var: None, file: Ok(format!("{first}{tail}").into_bytes()) }
            },
            run_station,
        )
        .var("COMPUTERNAME", None),
        Space::of(
            "long host name files",
            6 * 5,
            |i| {
                let mut m = Mix(i);
                let n = [1usize, 4000, 8191, 8192, 16000, 1 << 20][m.pick(6)];
                let file = match m.0 {
                    0 => [vec![b'h'; n.min(16000)], b"\n".to_vec()].concat(),
                    1 => [b"short\n".to_vec(), vec![b'x'; n]].concat(),
                    2 => vec![b'\n'; n],
                    3 => vec![b' '; n],
                    _ => [b"s.".to_vec(), vec![b'd'; n]].concat(),
                };
                Station { level: 3, var: None, file: Ok(file) }
            },
            run_station,
        )
        .var("COMPUTERNAME", None),
    ];
    // The variable
    const LETTERS: &[&[u8]] = &[b"a", b"B", b".", b"\n", b" ", "é".as_bytes(), "ß".as_bytes(), "😀".as_bytes(), b"\xff", b"\xc3", b"\xed\xa0\x80"];
    let depth = if deep { 5 } else { 4 };
    let files = || -> Vec<Result<Vec<u8>, i32>> { vec![Ok(b"host.example\n".to_vec()), Ok(vec![]), Err(libc::ENOENT)] };
    let fs = files();
    v.push(
        Space::of(
            &format!("COMPUTERNAME of up to {depth} pieces x host name file"),
            seq_count(LETTERS.len() as u64, depth) * 3,
            move |i| {
                let mut m = Mix(i);
                let file = m.of(&fs).clone();
                Station { level: 3, var: Some(Some(bytes_at(LETTERS, m.0))), file }
            },
            run_station,
        )
        .serial()
        .must_see(&["from the variable or file", "absent"]),
    );
    let fs = files();
    v.push(
        Space::of(
            "level x meaningful words as COMPUTERNAME x host name file",
            6 * 3 * dictionary().len() as u64,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let file = m.of(&fs).clone();
                Station { level, var: Some(Some(m.of(dictionary()).as_bytes().to_vec())), file }
            },
            run_station,
        )
        .serial(),
    );
    let fs = files();
    v.push(
        Space::of(
            "levels x COMPUTERNAME or none x host name file, and COMPUTERNAME by length",
            6 * 3 * 304,
            move |i| {
                let mut m = Mix(i);
                let level = m.pick(6) as u32;
                let file = m.of(&fs).clone();
                let var = match m.0 {
                    0 => None,
                    1 => Some(b"\xff".to_vec()),
                    2 => Some(vec![]),
                    3 => Some("N".repeat(30000).into_bytes()),
                    n => Some("Nä".repeat(n as usize - 3).into_bytes()),
                };
                Station { level, var: Some(var), file }
            },
            run_station,
        )
        .serial(),
    );
    v
}

// ---------------------------------------------------------------- C23

const VARS: [(&str, u16, bool); 4] = [
    ("COMPUTERNAME", 1, true),
    ("USERDOMAIN", 2, true),
    ("COMPUTERDNSNAME", 3, false),
    ("USERDNSDOMAIN", 4, false),
];

#[derive(Clone, Debug)]
struct Fill {
    vars: [Option<Vec<u8>>; 4],
    prior: Vec<Av>,
    flags: u32,
    times: usize,
}

fn run_fill(c: &Fill, o: &mut Obs) -> Res {
    for ((k, ..), v) in VARS.iter().zip(&c.vars) {
        set_var(k, v.as_deref());
    }
    let added: Vec<Av> = VARS
        .iter()
        .zip(&c.vars)
        .filter_map(|((_, id, up), v)| {
            let s = std::str::from_utf8(v.as_deref()?).ok()?;
            Some(Av::Name(*id, if *up { server::upper(s) } else { s.to_string() }))
        })
        .collect();
    let model = Chal { flags: c.flags, name: some("S"), sc: pattern(0x81), infos: c.prior.clone(), ver: has(c.flags, VERSION).then(ver) };
    let got = guard(|| {
        let mut r = if c.prior.len() < 2 { dec_chal_real(&encode(&Msg::Chal(model.clone()))).expect("well formed") } else { chal_r(&model) };
        for _ in 0..c.times {
            r.fill_from_env();
        }
        chal_m(&r)
    })?;
    o.steps(c.times as u64);
    o.state(&(&got.infos, got.flags));
    let mut want = model.clone();
    want.infos.pop();
    let n = want.infos.len();
    for _ in 0..c.times {
        want.infos.extend(added.iter().cloned());
    }
    if !want.infos.is_empty() || !c.prior.is_empty() {
        want.infos.push(Av::Eol);
    }
    if !added.is_empty() && c.times > 0 {
        want.flags |= bits(&[TARGET_INFO]);
        o.outcome("filled");
    } else {
        o.outcome("nothing to fill");
    }
    // The order of the pairs of one call is free
    let mut sorted = got.clone();
    if sorted.infos.len() == want.infos.len() {
        for t in 0..c.times {
            let r = n + t * added.len()..n + (t + 1) * added.len();
            sorted.infos[r].sort_by_key(|a| match a {
                Av::Name(id, _) => *id,
                _ => u16::MAX,
            });
        }
    }
    if sorted != want {
        return Err(format!("filling gives {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn c23(deep: bool) -> Vec<Space> {
    let mut values: Vec<Option<Vec<u8>>> = vec![None];
    for v in ["", "a", "srv.Example.org", "ÿß", "日😀", " x "] {
        values.push(Some(v.as_bytes().to_vec()));
    }
    values.push(Some(b"a\xff".to_vec()));
    values.push(Some(b"\xed\xa0\x80".to_vec()));
    if deep {
        values.push(Some("ŉǆ".repeat(100).into_bytes()));
        values.push(Some(b"UPPER\n".to_vec()));
    }
    let priors: Vec<Vec<Av>> = vec![
        vec![],
        vec![Av::Eol],
        vec![name(1, "Old"), Av::Eol],
        short_infos(),
        full_infos(),
    ];
    let flags = [base_flags(), base_flags() & !bits(&[TARGET_INFO]), u32::MAX];
    let k = values.len() as u64;
    let (vs, ps) = (values.clone(), priors.clone());
    let mut v = vec![Space::of(
        "every combination of values of the four variables x pairs before x flags x calls",
        k.pow(4) * 5 * 3 * 2,
        move |i| {
            let mut m = Mix(i);
            let prior = m.of(&ps).clone();
            let flags = *m.of(&flags);
            let times = 1 + m.pick(2);
            Fill { vars: std::array::from_fn(|_| m.of(&vs).clone()), prior, flags, times }
        },
        run_fill,
    )
    .serial()
    .must_see(&["filled", "nothing to fill"])];
    for which in 0..4 {
        if !deep && which % 2 == 1 {
            continue;
        }
        v.push(
            Space::of(
                &format!("every character as {}", VARS[which].0),
                SCALARS - 1,
                move |i| {
                    let mut vars = [None, None, None, None];
                    vars[which] = Some(scalar(i + 1).to_string().into_bytes());
                    Fill { vars, prior: vec![], flags: base_flags(), times: 1 }
                },
                run_fill,
            )
            .serial(),
        );
    }
    let before = if deep { 5 } else { 4 };
    v.push(
        Space::of(
            &format!("up to {before} pairs before, some as the variables would add them x which variables x calls"),
            seq_count(8, before) * 16 * 3,
            move |i| {
                let mut m = Mix(i);
                let vars = std::array::from_fn(|_| m.flag().then(|| b"V".to_vec()));
                let times = 1 + m.pick(3);
                let mut prior: Vec<Av> = seq_at(8, m.0)
                    .into_iter()
                    .map(|k| match k {
                        0 => name(1, "other"),
                        1..=5 => name(k as u16, "V"),
                        6 => name(9, "V"),
                        _ => Av::Time(0x01d9_0000_0000_0001),
                    })
                    .collect();
                prior.push(Av::Eol);
                Fill { vars, prior, flags: base_flags(), times }
            },
            run_fill,
        )
        .serial(),
    );
    let often = if deep { 400 } else { 80 };
    v.push(
        Space::of(
            "which variables x pairs before x many calls",
            16 * 5 * often,
            move |i| {
                let mut m = Mix(i);
                let vars = std::array::from_fn(|n| m.flag().then(|| vec![b'a' + n as u8; 1 + n]));
                let prior = m.of(&priors).clone();
                Fill { vars, prior, flags: base_flags(), times: 1 + m.0 as usize }
            },
            run_fill,
        )
        .serial(),
    );
    let lens = text_lengths(300, 12);
    v.push(
        Space::of(
            "each variable by length",
            4 * 4 * 2 * lens.len() as u64,
            move |i| {
                let mut m = Mix(i);
                let which = m.pick(4);
                let unit = *m.of(&["x", "ß", "é", "😀"]);
                let mut vars = [None, None, None, None];
                if m.flag() {
                    vars = std::array::from_fn(|_| Some(b"v".to_vec()));
                }
                vars[which] = Some(unit.repeat(lens[m.0 as usize]).into_bytes());
                Fill { vars, prior: vec![], flags: base_flags(), times: 1 }
            },
            run_fill,
        )
        .serial(),
    );
    const LETTERS: &[&[u8]] = &[b"a", b"Z", b".", "ß".as_bytes(), "😀".as_bytes(), b"\xff", b"\xc3", b"\xa9"];
    v.push(
        Space::of(
            "meaningful words as two of the variables",
            6 * (dictionary().len() as u64).pow(2),
            |i| {
                const TWO: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
                let mut m = Mix(i);
                let (a, b) = *m.of(&TWO);
                let mut vars = [None, None, None, None];
                vars[a] = Some(m.of(dictionary()).as_bytes().to_vec());
                vars[b] = Some(m.of(dictionary()).as_bytes().to_vec());
                Fill { vars, prior: vec![], flags: base_flags(), times: 1 }
            },
            run_fill,
        )
        .serial(),
    );
    for which in 0..4 {
        v.push(
            Space::of(
                &format!("strings as {}", VARS[which].0),
                seq_count(8, if deep { 6 } else { 4 }),
                move |i| {
                    let mut vars = [None, Some(b"D".to_vec()), None, Some(b"\xff".to_vec())];
                    vars[which] = Some(bytes_at(LETTERS, i));
                    Fill { vars, prior: short_infos(), flags: base_flags(), times: 1 }
                },
                run_fill,
            )
            .serial(),
        );
    }
    v
}
