//! Explicit enumeration of bounded spaces of executions of the real code against a reference model.
//!
//!   mc check ID TIER            explore the spaces of a property; verdict on stdout and exit status
//!   mc replay FILE              run the one case a replay file names
//!   mc list                     the spaces and their sizes
//!   mc worker/digest ...        internal
mod alloc;
mod engine;
mod env;
mod gen;
mod props;
mod real;
mod server;
mod spec;

// The Windows client, as it is in the tree, and what it wants from its crate
#[cfg(feature = "win")]
#[allow(dead_code, unused_imports)]
#[path = "/repo/src/win.rs"]
mod win;
#[cfg(feature = "win")]
#[allow(dead_code, unused_imports)]
mod messages {
    pub use http_ntlm::messages::{Authenticate, Negotiate};
    pub trait Wire {}
}

use engine::*;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A case that takes longer is a hang.
const HANG: Duration = Duration::from_secs(60);
const MEMORY: u64 = 12 << 30;

/// The biggest space that the plain build explores, by tier.
const PLAIN_MOST: [u64; 2] = [250_000, 8_000_000];

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a[..] {
        ["check", id, tier] => check(id, tier),
        ["worker", id, tier, out, slots] => worker(id, tier, out, slots),
        ["case", id, tier, space, n, out] => case(id, tier, space, n.parse().unwrap(), false, out),
        ["prefix", id, tier, space, n, out] => case(id, tier, space, n.parse().unwrap(), true, out),
        ["digest", id, tier, dir] => {
            prepare();
            props::c24::write_digests(id, tier, dir);
            0
        }
        ["solo", level, chal, who] => {
            prepare();
            props::seq::solo(level, chal, who);
            0
        }
        ["race", tier, n, i] => {
            prepare();
            props::race::main(tier, n, i);
            0
        }
        ["replay", file] => replay(file),
        ["list"] => list("quick"),
        ["list", tier] => list(tier),
        _ => {
            eprintln!("usage: mc check ID quick|thorough | replay FILE | list [TIER]");
            2
        }
    };
    std::process::exit(code);
}

/// The environment every run starts from.
fn prepare() {
    for v in ["COMPUTERNAME", "USERDOMAIN", "COMPUTERDNSNAME", "USERDNSDOMAIN"] {
        std::env::remove_var(v);
    }
    std::env::set_var("COMPUTERNAME", props::WORKSTATION);
    alloc::self_test();
    env::self_test();
    server::self_test();
    install_panic_hook();
    unsafe {
        let l = libc::rlimit { rlim_cur: MEMORY, rlim_max: MEMORY };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
}

fn spaces(id: &str, tier: &str) -> Vec<Space> {
    assert!(tier == "quick" || tier == "thorough", "tier is quick or thorough");
    if cfg!(mc_race) && id == "C26" {
        return props::race::spaces(tier == "thorough");
    }
    match props::spaces(id, tier == "thorough") {
        Some(s) => for_build(s, if cfg!(debug_assertions) { "checked" } else { "plain" }, tier),
        None => {
            eprintln!("no check for {id}");
            std::process::exit(2);
        }
    }
}

/// The plain build leaves the biggest spaces to the checked one.
fn for_build(mut s: Vec<Space>, build: &str, tier: &str) -> Vec<Space> {
    if build == "plain" {
        let limit = PLAIN_MOST[(tier == "thorough") as usize];
        let most = s.iter().map(|s| s.len).min().unwrap_or(0).max(limit);
        s.retain(|s| s.len <= most);
    }
    s
}

fn list(tier: &str) -> i32 {
    prepare();
    for id in props::IDS {
        for s in spaces(id, tier) {
            println!("{id} {:>14} {}", s.len, s.name);
        }
    }
    0
}

// ---------------------------------------------------------------- worker

fn worker(id: &str, tier: &str, out: &str, slots: &str) -> i32 {
    prepare();
    let slots = Slots::map(slots).expect("slots");
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get());
    let spaces = spaces(id, tier);
    let mut json = String::new();
    let mut total = Obs::default();
    let (mut evaluations, mut violation, mut vacuous) = (0u64, None, None);
    let mut rows = vec![];
    let mut samples = vec![];
    for (n, s) in spaces.iter().enumerate() {
        let vars: Vec<_> = s.vars.iter().map(|(k, _)| (*k, std::env::var_os(k))).collect();
        s.enter();
        let r = explore(n, s, threads, &slots);
        log::set_max_level(env::logging());
        for (k, v) in vars {
            use std::os::unix::ffi::OsStrExt;
            set_var(k, v.as_deref().map(|v| v.as_bytes()));
        }
        evaluations += r.evaluations;
        let mut o = String::new();
        for (k, v) in &r.obs.outcomes {
            let _ = write!(o, "{}{}: {v}", if o.is_empty() { "" } else { ", " }, q(k));
        }
        rows.push(format!(
            "{{\"space\": {}, \"size\": {}, \"executed\": {}, \"states\": {}, \"states_capped\": {}, \"outcomes\": {{{o}}}, \"wall_s\": {:.2}}}",
            q(&s.name), s.len, r.evaluations, r.obs.states.len(), r.obs.states_capped, r.wall
        ));
        for i in [0, s.len / 2, s.len - 1] {
            let mut d = (s.describe)(i);
            if d.len() > 400 {
                let mut cut = 400;
                while !d.is_char_boundary(cut) {
                    cut -= 1;
                }
                d.truncate(cut);
                d.push_str("...");
            }
            samples.push(q(&format!("{} #{i}: {d}", s.name)));
        }
        total.transitions += r.obs.transitions;
        total.traces += r.obs.traces;
        total.states_capped |= r.obs.states_capped;
        // States of different spaces are different: the space is part of the state
        total.states.reserve(r.obs.states.len());
        for h in r.obs.states {
            total.states.insert(h ^ (n as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15));
        }
        if let Some(v) = r.violation {
            violation = Some((n, v.0, v.1));
            break;
        }
        if let Some(v) = r.vacuous {
            vacuous = Some(format!("{}: {v}", s.name));
        }
    }
    samples.truncate(60);
    let _ = write!(
        json,
        "{{\"evaluations\": {evaluations}, \"states\": {}, \"states_capped\": {}, \"transitions\": {}, \"traces\": {}, \"rows\": [{}], \"samples\": [{}]}}",
        total.states.len(),
        total.states_capped,
        total.transitions,
        total.traces,
        rows.join(",\n    "),
        samples.join(",\n    "),
    );
    let verdict = match (&violation, &vacuous) {
        (Some((n, i, e)), _) => format!("violation\n{n}\n{i}\n{}\n{}", spaces[*n].name, e.replace('\n', " ")),
        (None, Some(v)) => format!("vacuous\n{v}"),
        _ => "ok".into(),
    };
    std::fs::write(out, format!("{verdict}\n\x1e{json}")).expect("result file");
    0
}

/// One case (or all cases of the space up to it) in a process of its own.
fn case(id: &str, tier: &str, space: &str, i: u64, prefix: bool, out: &str) -> i32 {
    prepare();
    let spaces = spaces(id, tier);
    let s = spaces.iter().find(|s| s.name == space).expect("space");
    s.enter();
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, || {
                let mut obs = Obs::default();
                if prefix {
                    for j in 0..i {
                        run_case(s, j, &mut obs).map_err(|e| format!("case {j}: {e}"))?;
                    }
                }
                run_case(s, i, &mut obs)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    let text = match r {
        Ok(()) => "ok".to_string(),
        Err(e) => format!("violation\n{e}"),
    };
    std::fs::write(out, text).expect("result file");
    0
}

// ---------------------------------------------------------------- parent

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("mc.{}.{}", std::process::id(), unsafe { libc::getuid() }));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    fn path(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

enum End {
    Exit(i32),
    Signal(i32),
    Hang(u64, u64),
}

fn spawn(bin: &Path, args: &[&str], slots: Option<&Slots>, hang: Duration, envs: &[(String, String)]) -> End {
    use std::os::unix::process::ExitStatusExt;
    let mut child = Command::new(bin)
        .args(args)
        .envs(envs.iter().map(|(k, v)| (k.as_str(), v.as_str())))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(if std::env::var_os("MC_DEBUG").is_some() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .expect("worker");
    let start = Instant::now();
    let mut last = [(IDLE, IDLE); MAX_THREADS];
    let mut since = [start; MAX_THREADS];
    let mut pause = 5;
    loop {
        if let Some(st) = child.try_wait().expect("worker status") {
            return match st.code() {
                Some(c) => End::Exit(c),
                None => End::Signal(st.signal().unwrap_or(0)),
            };
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(50);
        match slots {
            Some(s) => {
                for t in 0..MAX_THREADS {
                    let now = s.get(t);
                    if now != last[t] {
                        last[t] = now;
                        since[t] = Instant::now();
                    } else if now.0 != IDLE && since[t].elapsed() > hang {
                        let _ = child.kill();
                        let _ = child.wait();
                        return End::Hang(now.0, now.1);
                    }
                }
            }
            None => {
                if start.elapsed() > hang {
                    let _ = child.kill();
                    let _ = child.wait();
                    return End::Hang(0, 0);
                }
            }
        }
    }
}

enum Confirm {
    Violation(String),
    Fine,
    Broken(String),
}

fn confirm(bin: &Path, mode: &str, id: &str, tier: &str, space: &str, i: u64, sc: &Scratch, envs: &[(String, String)]) -> Confirm {
    let out = sc.path("case");
    let _ = std::fs::remove_file(&out);
    let limit = if mode == "prefix" { Duration::from_secs(400) } else { HANG };
    match spawn(bin, &[mode, id, tier, space, &i.to_string(), &out], None, limit, envs) {
        End::Exit(0) => match std::fs::read_to_string(&out).unwrap_or_default().split_once('\n') {
            Some(("violation", e)) => Confirm::Violation(e.to_string()),
            _ => Confirm::Fine,
        },
        End::Signal(s) => Confirm::Violation(format!("the process died with signal {s} (crash)")),
        End::Exit(c) => Confirm::Broken(format!("replay ended with status {c}")),
        End::Hang(..) if mode == "prefix" => Confirm::Broken("replay of the prefix took too long".into()),
        End::Hang(..) => Confirm::Violation(format!("did not end within {} s (hang)", HANG.as_secs())),
    }
}

struct Found {
    space: String,
    case: u64,
    error: String,
    mode: &'static str,
    describe: String,
}

enum Outcome {
    Held(String),
    Violated(Found, Option<String>),
    Error(String),
}

/// The spaces that the worker of this build explores.
fn spaces_of(build: &str, id: &str, tier: &str) -> Vec<Space> {
    if build == "race" {
        return props::race::spaces(tier == "thorough");
    }
    for_build(spaces(id, tier), build, tier)
}

/// Runs the worker binary `bin` and establishes what its result means.
fn run_build(name: &str, bin: &Path, id: &str, tier: &str, sc: &Scratch, envs: &[(String, String)]) -> Outcome {
    let all = spaces_of(name, id, tier);
    let slots_path = sc.path("slots");
    let slots = Slots::map(&slots_path).expect("slots");
    let describe = |space: &str, i: u64| {
        let s = all.iter().find(|s| s.name == space).unwrap();
        guard(|| (s.describe)(i)).unwrap_or_default()
    };
    let mut retried = false;
    loop {
        slots.clear();
        let out = sc.path("result");
        let _ = std::fs::remove_file(&out);
        let end = spawn(bin, &["worker", id, tier, &out, &slots_path], Some(&slots), HANG, envs);
        let mut suspects: Vec<(String, u64)> = vec![];
        let how;
        match end {
            End::Exit(0) => {
                let text = std::fs::read_to_string(&out).unwrap_or_default();
                let Some((verdict, json)) = text.split_once("\n\x1e") else {
                    return Outcome::Error("the worker left no result".into());
                };
                let l: Vec<&str> = verdict.splitn(5, '\n').collect();
                match l[..] {
                    ["ok"] => return Outcome::Held(json.into()),
                    ["vacuous", why] => return Outcome::Error(format!("vacuous exploration: {why}")),
                    ["violation", _, case, space, error] => {
                        let case: u64 = case.parse().unwrap();
                        for mode in ["case", "prefix"] {
                            match confirm(bin, mode, id, tier, space, case, sc, envs) {
                                Confirm::Violation(e) => {
                                    let f = Found { space: space.into(), case, error: e, mode, describe: describe(space, case) };
                                    return Outcome::Violated(f, Some(json.into()));
                                }
                                Confirm::Fine => {}
                                Confirm::Broken(e) if mode == "case" => return Outcome::Error(e),
                                Confirm::Broken(_) => {}
                            }
                        }
                        if retried {
                            let f = Found {
                                space: space.into(),
                                case,
                                error: format!("{error} (depends on what else ran in the process; seen in two runs)"),
                                mode: "worker",
                                describe: describe(space, case),
                            };
                            return Outcome::Violated(f, Some(json.into()));
                        }
                        retried = true;
                        continue;
                    }
                    _ => return Outcome::Error(format!("bad result: {verdict}")),
                }
            }
            End::Exit(c) => return Outcome::Error(format!("the worker ended with status {c}")),
            End::Signal(s) => {
                if s == libc::SIGKILL || s == libc::SIGTERM || s == libc::SIGINT {
                    return Outcome::Error(format!("the worker was ended from outside (signal {s})"));
                }
                how = format!("the process died with signal {s} (crash)");
                for t in 0..MAX_THREADS {
                    let (n, i) = slots.get(t);
                    if n != IDLE && (n as usize) < all.len() {
                        suspects.push((all[n as usize].name.clone(), i));
                    }
                }
            }
            End::Hang(n, i) => {
                how = "did not end (hang)".to_string();
                if (n as usize) < all.len() {
                    suspects.push((all[n as usize].name.clone(), i));
                }
            }
        }
        suspects.sort();
        for (space, i) in &suspects {
            if let Confirm::Violation(e) = confirm(bin, "case", id, tier, space, *i, sc, envs) {
                let f = Found { space: space.clone(), case: *i, error: e, mode: "case", describe: describe(space, *i) };
                return Outcome::Violated(f, None);
            }
        }
        if retried && !suspects.is_empty() {
            let (space, case) = suspects[0].clone();
            let describe = describe(&space, case);
            return Outcome::Violated(Found { space, case, error: format!("{how}, in two runs"), mode: "worker", describe }, None);
        }
        if retried {
            return Outcome::Error(how);
        }
        retried = true;
    }
}

pub fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> PathBuf {
    match std::env::var_os("MC_VERIF") {
        Some(d) => d.into(),
        None => Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // known: property=<id> key=<text found in "space: message"> :: <what fails>
    let f = verif_dir().join("known-findings.txt");
    let text = std::fs::read_to_string(f).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == id)
        .filter_map(|(_, r)| r.strip_prefix("key=").and_then(|r| r.split_once(" :: ")))
        .map(|(k, w)| (k.to_string(), w.to_string()))
        .collect()
}

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    let me = std::env::current_exe().expect("own path");
    let sc = Scratch::new();
    let dir = verif_dir();
    let mut builds: Vec<(&str, PathBuf)> = vec![];
    let mut envs = vec![];
    if id == "C24" {
        let strict = std::env::var_os("MC_STRICT").expect("MC_STRICT names the binary built with the strict feature");
        match spawn(&me, &["digest", id, tier, sc.0.to_str().unwrap()], None, Duration::from_secs(600), &[]) {
            End::Exit(0) => {}
            _ => {
                eprintln!("error: the default build gave no digests");
                return 2;
            }
        }
        envs.push(("MC_DIGESTS".to_string(), sc.0.to_str().unwrap().to_string()));
        builds.push(("strict", strict.into()));
    } else {
        builds.push(("checked", me));
        if let Some(p) = std::env::var_os("MC_PLAIN") {
            builds.push(("plain", p.into()));
        }
        if let Some(p) = std::env::var_os("MC_UNOPT") {
            builds.push(("unopt", p.into()));
        }
        if let Some(p) = std::env::var_os("MC_RACE") {
            // First, as it finds races in every run
            builds.insert(0, ("race", p.into()));
        }
    }
    for (k, w) in known_findings(id) {
        let _ = k;
        println!("KNOWN-FINDING: property={id} {w}");
    }
    let mut first = None;
    let mut more = vec![];
    let mut violation = None;
    for (name, bin) in &builds {
        match run_build(name, bin, id, tier, &sc, &envs) {
            Outcome::Held(json) => {
                if first.is_none() && *name != "race" {
                    first = Some(json)
                } else {
                    more.push((*name, json))
                }
            }
            Outcome::Error(e) => {
                eprintln!("error: {id}: {e}");
                println!("ERROR {id}: {e}");
                return 2;
            }
            Outcome::Violated(f, json) => {
                if first.is_none() {
                    first = json;
                }
                violation = Some((name.to_string(), f));
                break;
            }
        }
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let get = |j: &str, k: &str| -> String {
        let p = format!("\"{k}\": ");
        match j.find(&p) {
            Some(at) => j[at + p.len()..].split([',', '}']).next().unwrap_or("0").trim().to_string(),
            None => "0".into(),
        }
    };
    let part = |j: &str, k: &str| -> String {
        let p = format!("\"{k}\": [");
        let Some(at) = j.find(&p) else { return String::new() };
        let rest = &j[at + p.len()..];
        let end = if k == "rows" { rest.find("], \"samples\"") } else { rest.rfind("]}") };
        rest[..end.unwrap_or(rest.len())].to_string()
    };
    let j = first.unwrap_or_default();
    let mut e = String::new();
    let _ = write!(
        e,
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"states_is_lower_bound\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"spaces\": [\n    {}],\n",
        q(id), q(tier), get(&j, "states"), if j.is_empty() { "false".into() } else { get(&j, "states_capped") },
        get(&j, "transitions"), get(&j, "traces"), get(&j, "evaluations"), violation.is_none(), q(props::rule(id)), part(&j, "rows")
    );
    for (name, p) in &more {
        let _ = write!(e, "  \"{name}_build\": {{\"evaluations\": {}, \"states\": {}, \"transitions\": {}}},\n", get(p, "evaluations"), get(p, "states"), get(p, "transitions"));
    }
    let mut samples = part(&j, "samples");
    if samples.is_empty() {
        samples = q("the exploration ended before a case was finished");
    }
    let ass: Vec<String> = props::assumptions(id).iter().map(|s| q(s)).collect();
    let _ = write!(
        e,
        "  \"samples\": [\n    {}]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}}}\n",
        samples, ass.join(", "), violation.is_some() as u32, t0.elapsed().as_secs_f64()
    );
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    std::fs::write(dir.join("evidence").join(format!("{id}.json")), e).expect("evidence file");
    match violation {
        None => {
            println!("{id} {tier}: held on {} executions, {} states, {:.1} s", get(&j, "evaluations"), get(&j, "states"), t0.elapsed().as_secs_f64());
            0
        }
        Some((build, f)) => {
            let rd = dir.join("replays");
            let _ = std::fs::create_dir_all(&rd);
            let file = rd.join(format!("{id}-{build}.txt"));
            let text = format!(
                "property={id}\ntier={tier}\nbuild={build}\nmode={}\nspace={}\ncase={}\nviolation={}\ninput={}\n",
                f.mode, f.space, f.case, f.error.replace('\n', " "), f.describe.replace('\n', " ")
            );
            std::fs::write(&file, text).expect("replay file");
            println!("{}: case {}: {}", f.space, f.case, f.error.chars().take(2000).collect::<String>());
            println!("input: {}", f.describe.chars().take(2000).collect::<String>());
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
    }
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('='))).unwrap_or("").to_string();
    let (id, tier, space) = (get("property"), get("tier"), get("space"));
    let i: u64 = get("case").parse().expect("case number");
    install_panic_hook();
    let sc = Scratch::new();
    let bin = match get("build").as_str() {
        "plain" => PathBuf::from(std::env::var_os("MC_PLAIN").expect("MC_PLAIN")),
        "unopt" => PathBuf::from(std::env::var_os("MC_UNOPT").expect("MC_UNOPT")),
        "race" => PathBuf::from(std::env::var_os("MC_RACE").expect("MC_RACE")),
        "strict" => PathBuf::from(std::env::var_os("MC_STRICT").expect("MC_STRICT")),
        _ => std::env::current_exe().unwrap(),
    };
    let mode = get("mode");
    let mode = if mode == "worker" { "prefix" } else { &mode };
    let mut envs = vec![];
    if id == "C24" {
        let me = std::env::current_exe().unwrap();
        spawn(&me, &["digest", &id, &tier, sc.0.to_str().unwrap()], None, Duration::from_secs(600), &[]);
        envs.push(("MC_DIGESTS".to_string(), sc.0.to_str().unwrap().to_string()));
    }
    println!("{space}: case {i}");
    for s in spaces_of(&get("build"), &id, &tier) {
        if s.name == space {
            println!("input: {}", (s.describe)(i));
        }
    }
    match confirm(&bin, mode, &id, &tier, &space, i, &sc, &envs) {
        Confirm::Violation(e) => {
            println!("{e}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Confirm::Fine => {
            println!("the case passes");
            0
        }
        Confirm::Broken(e) => {
            println!("ERROR {e}");
            2
        }
    }
}
