//! C26 under preemption at every shared access. This build is instrumented by the compiler: each atomic
//! operation and each access to writable static memory calls `hook` (rt/tsanrt.c), where the thread of a
//! client may be stopped and another one goes on. One schedule is one execution in a forked process of
//! its own, as statics are made once per process.

use super::seq::Part;
use crate::engine::*;
use crate::spec::fx;

/// Clients that run at the same time in a process in which another one may have run before.
#[derive(Clone, Debug)]
pub struct Conf {
    pub parts: Vec<Part>,
    pub calls: usize,
    pub before: Option<Part>,
    /// At most so many schedules
    pub limit: u64,
}

fn confs(deep: bool) -> Vec<(String, Vec<Conf>)> {
    let part = |level: usize, chal: usize, who: usize| Part { level: level as u32, chal, who };
    let limit = if deep { 6_000 } else { 1_500 };
    let mut two = vec![];
    for a in 0..6 {
        for b in 0..6 {
            for (x, y) in if deep { &[(0, 0), (1, 2)][..] } else { &[(0, 0)][..] } {
                for who in if deep { &[1, 9][..] } else { &[1, 3][..] } {
                    for before in [None, Some(part(4, 0, 2))] {
                        two.push(Conf { parts: vec![part(a, *x, 0), part(b, *y, *who)], calls: if deep { 4 } else { 3 }, before, limit });
                    }
                }
            }
        }
    }
    let mut three = vec![];
    for l in [[0, 3, 5], [2, 4, 1], [3, 3, 3], [0, 0, 0], [1, 1, 2]] {
        for before in [None, Some(part(4, 0, 2))] {
            let parts = (0..3).map(|w| part(l[w], w % 2, [0, 1, 3][w])).collect();
            three.push(Conf { parts, calls: 3, before, limit });
        }
    }
    vec![
        ("preempted at shared memory: two clients x process new or used before".into(), two),
        ("preempted at shared memory: three clients x process new or used before".into(), three),
    ]
}

pub fn spaces(deep: bool) -> Vec<Space> {
    confs(deep)
        .into_iter()
        .enumerate()
        .map(|(n, (name, list))| {
            Space::of(&name, list.len() as u64, move |i| (n, i, list[i as usize].clone()), move |(n, i, _), o| explore(deep, *n, *i, o))
        })
        .collect()
}

/// Explores one configuration in a process of its own.
fn explore(deep: bool, n: usize, i: u64, o: &mut Obs) -> Res {
    let out = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["race", if deep { "thorough" } else { "quick" }, &n.to_string(), &i.to_string()])
        .stderr(std::process::Stdio::null())
        .output()
        .expect("a process of its own");
    let text = String::from_utf8_lossy(&out.stdout);
    let mut ended = false;
    for l in text.lines() {
        match l.split_once(' ') {
            Some(("violation", e)) => return Err(e.to_string()),
            Some(("state", h)) => o.state_hash(u64::from_str_radix(h, 16).unwrap_or(0)),
            Some(("schedules", n)) => {
                let n: u64 = n.parse().unwrap_or(0);
                o.traces += n.saturating_sub(1);
                ended = true;
            }
            Some(("steps", n)) => o.steps(n.parse().unwrap_or(0)),
            Some(("bound", n)) => o.outcome(["no preemption", "1 preemption", "up to 2 preemptions", "up to 3 preemptions", "up to 4 preemptions", "up to 5 preemptions"][n.parse::<usize>().unwrap_or(0).min(5)]),
            _ => {}
        }
    }
    if !ended {
        return Err(format!("the process that explores the schedules ended with {:?}", out.status));
    }
    Ok(())
}

/// Which client runs up to its n-th next point; who is not at its end then runs in the order `tail`.
#[derive(Clone, Debug, Hash)]
pub struct Schedule {
    segs: Vec<(usize, u32)>,
    tail: Vec<usize>,
}

fn orders(ws: &[usize]) -> Vec<Vec<usize>> {
    if ws.is_empty() {
        return vec![vec![]];
    }
    let mut v = vec![];
    for w in ws {
        let rest: Vec<usize> = ws.iter().copied().filter(|x| x != w).collect();
        v.extend(orders(&rest).into_iter().map(|mut o| {
            o.insert(0, *w);
            o
        }));
    }
    v
}

/// All schedules with up to `bound` preemptions of clients that make `points` points each.
fn schedules(points: &[u32], bound: usize, limit: u64) -> Option<Vec<Schedule>> {
    let all: Vec<usize> = (0..points.len()).collect();
    let mut out = vec![];
    let mut at: Vec<(Vec<(usize, u32)>, Vec<u32>)> = vec![(vec![], vec![0; points.len()])];
    for depth in 0..=bound {
        let mut next = vec![];
        for (segs, used) in &at {
            let last = segs.last().map(|s| s.0);
            // All go on to their ends, the one that was preempted not at once
            for tail in orders(&all).into_iter().filter(|o| Some(o[0]) != last) {
                out.push(Schedule { segs: segs.clone(), tail });
                if out.len() as u64 > limit {
                    return None;
                }
            }
            if depth == bound {
                continue;
            }
            for w in all.iter().filter(|w| Some(**w) != last) {
                for n in 1..points[*w].saturating_sub(used[*w]) {
                    let (mut s, mut u) = (segs.clone(), used.clone());
                    s.push((*w, n));
                    u[*w] += n;
                    next.push((s, u));
                    if next.len() as u64 > limit {
                        return None;
                    }
                }
            }
        }
        at = next;
    }
    Some(out)
}

#[cfg(not(mc_race))]
pub fn main(_: &str, _: &str, _: &str) {
    println!("violation this build has no instrumentation");
}

#[cfg(mc_race)]
pub use run::{futex_wait, main};

#[cfg(mc_race)]
mod run {
    use super::*;
    use crate::env::with_preemption;
    use std::cell::{Cell, RefCell};
    use std::collections::{BTreeSet, HashSet};
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    use std::rc::Rc;
    use std::sync::mpsc::{channel, Receiver, Sender};
    use std::time::{Duration, Instant};

    type Hook = extern "C" fn(*const u8, u32, u32);
    extern "C" {
        fn mc_set_hook(h: Option<Hook>);
        fn mc_get_hook() -> Option<Hook>;
        static __data_start: u8;
        static _end: u8;
    }

    enum Rep {
        Preempted,
        Blocked,
        Yield,
        End(Result<Vec<Vec<u8>>, String>),
    }

    struct Ctl {
        go: Receiver<u32>,
        report: Sender<(Rep, u32)>,
        budget: Cell<u32>,
        used: Cell<u32>,
        streak: Cell<u32>,
        /// Static memory that is written while clients run
        shared: HashSet<usize>,
        found: RefCell<BTreeSet<usize>>,
    }
    thread_local!(static CTL: RefCell<Option<Rc<Ctl>>> = const { RefCell::new(None) });

    impl Ctl {
        fn stop(&self, r: Rep) {
            let _ = self.report.send((r, self.used.get()));
            self.streak.set(0);
            self.budget.set(self.go.recv().unwrap_or(u32::MAX));
        }
        fn point(&self) {
            if self.budget.get() == 0 {
                self.stop(Rep::Preempted);
            }
            if self.budget.get() != u32::MAX {
                self.budget.set(self.budget.get() - 1);
            }
            self.used.set(self.used.get() + 1);
            self.streak.set(self.streak.get() + 1);
            if self.streak.get() > 10_000 {
                self.stop(Rep::Yield);
            }
        }
    }

    fn ctl() -> Option<Rc<Ctl>> {
        CTL.try_with(|c| c.borrow().clone()).ok().flatten()
    }

    /// Called with the hook off.
    extern "C" fn hook(addr: *const u8, len: u32, write: u32) {
        let Some(c) = ctl() else { return };
        let (lo, hi) = unsafe { (&raw const __data_start as usize, &raw const _end as usize) };
        let a = addr as usize;
        if a >= lo && a < hi {
            let mut hit = false;
            for g in a >> 3..=(a + len.max(1) as usize - 1) >> 3 {
                if c.shared.contains(&g) {
                    hit = true;
                } else if write != 0 {
                    hit = true;
                    c.found.borrow_mut().insert(g);
                }
            }
            if !hit {
                return;
            }
        }
        c.point();
    }

    fn unhooked<T>(f: impl FnOnce(&Ctl) -> T) -> Option<T> {
        let h = unsafe { mc_get_hook() };
        h?;
        unsafe { mc_set_hook(None) };
        let r = ctl().map(|c| f(&c));
        unsafe { mc_set_hook(h) };
        r
    }

    /// A client waits for another one: the scheduler decides who goes on.
    pub fn futex_wait() -> bool {
        unhooked(|c| c.stop(Rep::Blocked)).is_some()
    }

    struct Th {
        go: Sender<u32>,
        at: Receiver<(Rep, u32)>,
        used: u32,
        end: Option<Result<Vec<Vec<u8>>, String>>,
    }

    fn start(p: Part, calls: usize, shared: HashSet<usize>, found: Sender<BTreeSet<usize>>) -> Th {
        let (go, wait) = channel();
        let (report, at) = channel();
        std::thread::spawn(move || {
            let c = Rc::new(Ctl {
                go: wait,
                report,
                budget: Cell::new(0),
                used: Cell::new(0),
                streak: Cell::new(0),
                shared,
                found: Default::default(),
            });
            c.budget.set(c.go.recv().unwrap_or(u32::MAX));
            CTL.with(|x| *x.borrow_mut() = Some(c.clone()));
            let point: Rc<dyn Fn()> = Rc::new(|| {
                unhooked(|c| c.point());
            });
            unsafe { mc_set_hook(Some(hook)) };
            let r = with_preemption(point.clone(), || {
                let mut cl = guard(|| p.build())?;
                let mut sent = vec![];
                for s in 0..calls {
                    point();
                    if let Some(b) = p.step(&mut cl, s)? {
                        sent.push(b);
                    }
                }
                Ok(sent)
            });
            unsafe { mc_set_hook(None) };
            let _ = found.send(c.found.borrow().clone());
            let _ = c.report.send((Rep::End(r), c.used.get()));
        });
        Th { go, at, used: 0, end: None }
    }

    #[derive(Default)]
    struct Ran {
        /// After each segment: how far each client is
        states: Vec<Vec<u32>>,
        points: Vec<u32>,
        found: BTreeSet<usize>,
        sent: Vec<Result<Vec<Vec<u8>>, String>>,
        stuck: Option<String>,
    }

    /// Runs one schedule in this process.
    fn perform(conf: &Conf, s: &Schedule, shared: &HashSet<usize>) -> Ran {
        let (tx, found) = channel();
        let mut ths: Vec<Th> = conf.parts.iter().map(|p| start(*p, conf.calls, shared.clone(), tx.clone())).collect();
        let mut r = Ran::default();
        let turn = |ths: &mut Vec<Th>, w: usize, n: u32| -> Option<bool> {
            let t = &mut ths[w];
            let _ = t.go.send(n);
            let (rep, used) = t.at.recv().ok()?;
            let moved = used != t.used || matches!(rep, Rep::End(_));
            t.used = used;
            if let Rep::End(e) = rep {
                t.end = Some(e);
            }
            Some(moved)
        };
        macro_rules! go {
            ($w:expr, $n:expr) => {
                match turn(&mut ths, $w, $n) {
                    Some(moved) => {
                        r.states.push(ths.iter().map(|t| t.used * 2 + t.end.is_some() as u32).collect());
                        moved
                    }
                    None => {
                        r.stuck = Some("the thread of a client ended".into());
                        return r;
                    }
                }
            };
        }
        for (w, n) in &s.segs {
            if ths[*w].end.is_none() {
                go!(*w, *n);
            }
        }
        let (mut idle, mut passes) = (0, 0);
        while ths.iter().any(|t| t.end.is_none()) {
            let mut moved = false;
            for w in &s.tail {
                if ths[*w].end.is_none() {
                    moved |= go!(*w, u32::MAX);
                }
            }
            passes += 1;
            if moved {
                idle = 0;
            } else {
                idle += 1;
                std::thread::sleep(Duration::from_millis(1));
            }
            if idle > 300 || passes > 3000 {
                r.stuck = Some("the clients wait for each other and none goes on".into());
                return r;
            }
        }
        r.points = ths.iter().map(|t| t.used).collect();
        drop(tx);
        while let Ok(f) = found.try_recv() {
            r.found.extend(f);
        }
        r.sent = ths.into_iter().map(|t| t.end.unwrap()).collect();
        r
    }

    /// The result of `f`, from a process that begins as a copy of this one.
    fn forked(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
        unsafe {
            let mut fds = [0; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::close(fds[0]);
                let b = f();
                let mut to = std::fs::File::from_raw_fd(fds[1]);
                let _ = to.write_all(&b);
                let _ = to.write_all(b"!");
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let mut from = std::fs::File::from_raw_fd(fds[0]);
            let mut b = vec![];
            let until = Instant::now() + Duration::from_secs(25);
            let mut late = false;
            loop {
                let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
                let left = until.saturating_duration_since(Instant::now()).as_millis() as i32;
                if libc::poll(&mut p, 1, left) <= 0 {
                    late = true;
                    libc::kill(pid, libc::SIGKILL);
                    break;
                }
                let mut part = [0; 4096];
                match from.read(&mut part) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => b.extend(&part[..n]),
                }
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if late {
                return Err("the clients do not come to an end".into());
            }
            if b.pop() != Some(b'!') {
                return Err(format!("the process died (status {st:#x})"));
            }
            Ok(b)
        }
    }

    fn hexes(sent: &[Vec<u8>]) -> String {
        sent.iter().map(|m| m.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(",")
    }

    /// What a schedule came to: the text of a violation, or states, points and shared memory found.
    struct Sum {
        bad: Option<String>,
        states: Vec<u64>,
        steps: u64,
        points: Vec<u32>,
        found: Vec<usize>,
    }

    fn one(conf: &Conf, s: &Schedule, shared: &HashSet<usize>, alone: &[String]) -> Sum {
        let mut sum = Sum { bad: None, states: vec![], steps: 0, points: vec![], found: vec![] };
        let text = forked(|| {
            let r = perform(conf, s, shared);
            let mut o = String::new();
            if let Some(e) = r.stuck {
                o += &format!("bad {e}\n");
            }
            for (w, sent) in r.sent.iter().enumerate() {
                match sent {
                    Ok(m) if hexes(m) == alone[w] => {}
                    Ok(m) => o += &format!("bad the client {:?} sends {}, alone it sends {}\n", conf.parts[w], hexes(m), alone[w]),
                    Err(e) => o += &format!("bad {}\n", e.replace('\n', " ")),
                }
            }
            for st in &r.states {
                o += &format!("state {:x}\n", fx(&(&format!("{:?}", conf.parts), conf.before.is_some(), st)));
            }
            for p in &r.points {
                o += &format!("point {p}\n");
            }
            for g in &r.found {
                o += &format!("found {g}\n");
            }
            o.into_bytes()
        });
        let text = match text {
            Ok(t) => String::from_utf8_lossy(&t).into_owned(),
            Err(e) => {
                sum.bad = Some(e);
                return sum;
            }
        };
        for l in text.lines() {
            match l.split_once(' ') {
                Some(("bad", e)) if sum.bad.is_none() => sum.bad = Some(e.into()),
                Some(("state", h)) => {
                    sum.steps += 1;
                    sum.states.push(u64::from_str_radix(h, 16).unwrap());
                }
                Some(("point", n)) => sum.points.push(n.parse().unwrap()),
                Some(("found", g)) => sum.found.push(g.parse().unwrap()),
                _ => {}
            }
        }
        sum
    }

    /// All messages of one client, on this thread.
    fn straight(p: &Part, calls: usize) -> Result<Vec<Vec<u8>>, String> {
        let mut cl = guard(|| p.build())?;
        let mut sent = vec![];
        for s in 0..calls {
            if let Some(b) = p.step(&mut cl, s)? {
                sent.push(b);
            }
        }
        Ok(sent)
    }

    pub fn main(tier: &str, n: &str, i: &str) {
        let (n, i): (usize, usize) = (n.parse().unwrap(), i.parse().unwrap());
        let conf = &super::confs(tier == "thorough")[n].1[i];
        // What belongs to the explorer is there before
        crate::props::seq::chals();
        let mut alone = vec![];
        for p in &conf.parts {
            match forked(|| straight(p, conf.calls).map_or_else(|e| format!("panicked: {e}"), |m| hexes(&m)).into_bytes()) {
                Ok(b) => alone.push(String::from_utf8_lossy(&b).into_owned()),
                Err(e) => return println!("violation alone: {e}"),
            }
        }
        if let Some(p) = &conf.before {
            let _ = straight(p, 4);
        }
        let mut shared: HashSet<usize> = HashSet::new();
        let mut points = vec![1; conf.parts.len()];
        let mut states: HashSet<u64> = HashSet::new();
        let (mut steps, mut count, mut bound) = (0, 0u64, 0);
        'again: for _ in 0..6 {
            bound = 0;
            let mut list = super::schedules(&points, 0, u64::MAX).unwrap();
            for b in 1..=5 {
                // One preemption in any case
                let Some(l) = super::schedules(&points, b, if b == 1 { conf.limit * 10 } else { conf.limit }) else { break };
                (list, bound) = (l, b);
            }
            for s in &list {
                let sum = one(conf, s, &shared, &alone);
                count += 1;
                steps += sum.steps;
                states.extend(sum.states);
                if let Some(e) = sum.bad {
                    return println!("violation {} ({} points, {} shared words; {s:?})", e.chars().take(1500).collect::<String>(), points.iter().sum::<u32>(), shared.len());
                }
                let before = (shared.len(), points.clone());
                shared.extend(sum.found);
                for (p, n) in points.iter_mut().zip(sum.points) {
                    *p = (*p).max(n);
                }
                if before != (shared.len(), points.clone()) {
                    // More to preempt at
                    continue 'again;
                }
            }
            break;
        }
        println!("points {points:?}, shared {}", shared.len());
        for h in states {
            println!("state {h:x}");
        }
        println!("steps {steps}\nbound {bound}\nschedules {count}");
    }
}
