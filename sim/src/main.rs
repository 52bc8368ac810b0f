//! Deterministic simulation of m68000 cores under fault injection. See /verif/DESIGN.md.
mod bus;
#[cfg(chost)]
mod chost;
mod core;
mod gen;
mod heap;
mod model;
mod ops;
mod props;
mod rng;
mod run;
mod asm;
mod text;
mod own;
mod timing;

use gen::*;
use ops::*;
use rng::{mix, Rng};
use run::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: heap::Counting = heap::Counting;

fn seed_of(base: u64, prop: u32, i: u64) -> u64 {
    mix(mix(base ^ (prop as u64) << 48) ^ i)
}

struct Outcome {
    case: Case,
    viol: Option<Div>,
    other: u64,
    other_what: Option<Div>,
    cov: Cov,
    kf: u64,
    state: u64,
}

fn pick_case(prop: u32, seed: u64) -> (Case, Prof, u64) {
    let plan = props::plan(prop);
    let mut r = Rng::new(seed);
    let total: u32 = plan.profs.iter().map(|p| p.0).sum();
    let mut x = r.below(total);
    let mut pf = plan.profs[0].1;
    for (w, p) in &plan.profs {
        if x < *w {
            pf = *p;
            break;
        }
        x -= w;
    }
    let map = if plan.lin {
        bus::Map::Lin(match r.below(3) {
            _ if r.pm(25) => 0x11100 + r.below(0x100),
            0 => 0x2000 + r.below(0x200),
            1 => 0x2000 + 2 * r.below(0x400),
            _ => 0x2000,
        })
    } else {
        bus::Map::Std
    };
    let own = r.pm(if prop == 18 { 400 } else { 100 }) && cfg!(feature = "own") && !matches!(pf.twin, TwinMode::Ffi);
    let case = Case { prop, scc: r.pm(500), own, torn: plan.lin || r.pm(500), map, image: r.u64(), twin: pf.twin, ops: Vec::new() };
    // Deeper or shallower runs, and a per-run change of temper.
    pf.turns = pf.turns / 2 + r.below(pf.turns);
    if r.below(500) == 0 {
        pf.turns *= 16;
    }
    for f in [&mut pf.exc, &mut pf.fault, &mut pf.odd, &mut pf.trace] {
        *f = *f * (4 + r.below(9)) / 8;
    }
    // Once in a while a very long life without ends and beginnings.
    if r.below((plan.quick / 16) as u32) == 0 && pf.twin != TwinMode::Prog {
        pf.far = true;
        pf.turns = 30_000 + r.below(100_000);
        pf.fresh = 0;
        pf.edge = 0;
        pf.vecpoke = 0;
        pf.reset = 0;
        pf.noise = pf.noise.min(10);
        pf.snap = pf.snap.min(2);
        pf.acc = pf.acc.min(10);
        pf.loops = pf.loops.min(20);
        if r.pm(600) {
            for f in [&mut pf.fault, &mut pf.odd, &mut pf.wild, &mut pf.junk] {
                *f = 0;
            }
        }
        if r.pm(500) {
            pf.exc = pf.exc.max(400);
            pf.burst = pf.burst.max(500);
        }
    }
    (case, pf, r.u64())
}

fn violation(w: &World, prop: u32) -> Option<Div> {
    w.divs.iter().find(|d| d.mask & p(prop) != 0).cloned()
}

/// Runs the recorded operations again without neighbours and clones, on another thread: nothing may change.
fn alone(w: &World, case: &Case) -> Option<Div> {
    let mut c2 = case.clone();
    c2.ops.retain(|o| !matches!(o, Op::Noise(_) | Op::Snap));
    let h = std::thread::spawn(move || {
        let mut w2 = World::new(&c2);
        for o in &c2.ops {
            w2.apply(o);
        }
        w2.hashes
    })
    .join();
    match h {
        Ok(h) if h == w.hashes => None,
        Ok(h) => {
            let i = h.iter().zip(&w.hashes).position(|(a, b)| a != b).unwrap_or(h.len().min(w.hashes.len()));
            Some(Div { mask: p(15), kind: "alone", msg: format!("step {i} differs when the core runs alone") })
        }
        Err(_) => Some(Div { mask: p(15), kind: "alone", msg: "the run panics when the core runs alone".into() }),
    }
}

fn run_seed(prop: u32, seed: u64, sink: Option<&mut dyn FnMut(&Case, Option<&Op>)>) -> Outcome {
    let (case, pf, gseed) = pick_case(prop, seed);
    let mut w = World::new(&case);
    let mut g = Gen::new(pf, case.map, gseed);
    let mut other = 0u64;
    let mut other_what = None;
    let mut viol = None;
    let ops;
    {
        let c0 = case.clone();
        let mut f;
        let sinkf: Option<&mut dyn FnMut(&Op)> = match sink {
            Some(s) => {
                s(&c0, None);
                f = move |o: &Op| s(&c0, Some(o));
                Some(&mut f)
            }
            None => None,
        };
        let mut s = Sim { w: &mut w, rec: Rec { ops: Vec::with_capacity(2000), sink: sinkf } };
        if pf.twin == TwinMode::Prog {
            g.program(&mut s);
            viol = violation(s.w, prop);
            other += s.w.divs.len() as u64;
            other_what = s.w.divs.first().cloned();
        } else {
            g.start(&mut s);
            for t in 0..pf.turns {
                if t & 0xFFF == 0xFFF {
                    heartbeat(t as u64);
                }
                g.turn(&mut s);
                if !s.w.divs.is_empty() {
                    viol = violation(s.w, prop);
                    if viol.is_some() {
                        break;
                    }
                    other += s.w.divs.len() as u64;
                    other_what = other_what.or_else(|| s.w.divs.first().cloned());
                    s.w.divs.clear();
                }
            }
            if pf.twin == TwinMode::Heap && viol.is_none() {
                // Everything has to come back in the end.
                s.go(Op::New(false));
                viol = violation(s.w, prop);
            }
        }
        ops = std::mem::take(&mut s.rec.ops);
    }
    let case = Case { ops, ..case };
    if viol.is_none() && pf.twin == TwinMode::Det {
        viol = alone(&w, &case).filter(|_| prop == 15);
    }
    let state = w.mem.hash() ^ mix(w.st.d[0] as u64 ^ (w.st.pc as u64) << 32 ^ w.st.sr as u64) ^ mix(w.cov.cycles);
    Outcome { case, viol, other, other_what, cov: std::mem::take(&mut w.cov), kf: w.kf, state }
}

fn replay(case: &Case) -> Option<Div> {
    let mut w = World::new(case);
    for o in &case.ops {
        w.apply(o);
        if let Some(v) = violation(&w, case.prop) {
            return Some(v);
        }
    }
    if case.twin == TwinMode::Det && case.prop == 15 {
        return alone(&w, case);
    }
    None
}

// ---------------------------------------------------------------------------------------------

const SAMPLE_MAX: usize = 3;

static STATUS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

/// Tells the parent that a long run goes on.
fn heartbeat(n: u64) {
    if let Some(f) = STATUS.get() {
        let _ = f.write_at(&n.to_le_bytes(), 16);
    }
}

fn worker(prop: u32, base: u64, id: u64, n: u64, total: u64, cap: u64, dir: &str) -> i32 {
    core::quiet_panics();
    let t0 = Instant::now();
    let status = STATUS.get_or_init(|| std::fs::File::create(format!("{dir}/status{id}")).unwrap());
    let plan = props::plan(prop);
    let mut cov = Cov::default();
    let (mut runs, mut other, mut kf, mut nondet, mut capped, mut unreadable) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut others: Vec<String> = Vec::new();
    let mut rc = 0;
    let mut i = id;
    while i < total {
        if t0.elapsed().as_secs() > cap {
            capped = 1;
            break;
        }
        let seed = seed_of(base, prop, i);
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&(i + 1).to_le_bytes());
        b[8..16].copy_from_slice(&seed.to_le_bytes());
        let _ = status.write_at(&b, 0);
        let o = run_seed(prop, seed, None);
        runs += 1;
        other += o.other;
        if let (Some(d), true) = (&o.other_what, others.len() < 3) {
            let props: Vec<String> = props::ALL.filter(|i| d.mask & p(*i) != 0).map(|i| format!("C{i:02}")).collect();
            others.push(format!("seed {seed} {} {}: {}", props.join(" "), d.kind, d.msg.replace('\n', " ")));
        }
        kf += o.kf;
        let nontriv = o.cov.instr >= 10 && (plan.trigger.is_empty() || plan.trigger.iter().any(|t| o.cov.counts.contains_key(t)));
        if nontriv {
            sigs.insert(o.case.ops.iter().fold(mix(o.case.image), |h, x| {
                let mut v = h;
                match x {
                    Op::Mem(a, b) | Op::Asm(a, b, _) => b.iter().for_each(|c| v = mix(v ^ *a as u64 ^ (*c as u64) << 32)),
                    Op::Reg(r, x) => v = mix(v ^ *x as u64 ^ (*r as u64) << 40),
                    Op::Exc(n) => v = mix(v ^ (*n as u64) << 50),
                    Op::Storm(n, m, _) => v = mix(v ^ (*n as u64) << 52 ^ *m as u64),
                    Op::Again(n, m) => v = mix(v ^ (*n as u64) << 51 ^ *m as u64),
                    _ => v = mix(v + 1),
                }
                v
            }));
            if samples.len() < SAMPLE_MAX && runs % 7 == 3 {
                let tail: Vec<String> = o.case.ops.iter().skip(o.case.ops.len() / 3).take(14).map(|x| x.text().chars().take(160).collect()).collect();
                samples.push(format!("seed {seed:016x} {} {} image {:x}, {} operations, from the middle: {}", format!("{}{}", if o.case.own { "own CPU, frames of the " } else { "" }, if o.case.scc { "scc68070" } else { "mc68000" }), if o.case.torn { "word bus" } else { "long bus" }, o.case.image, o.case.ops.len(), tail.join("; ")));
            }
        }
        // Merge.
        for (k, v) in &o.cov.counts {
            *cov.counts.entry(k).or_insert(0) += v;
        }
        cov.cycles += o.cov.cycles;
        cov.steps += o.cov.steps;
        cov.instr += o.cov.instr;
        cov.accesses += o.cov.accesses;
        if cov.distinct.len() < 3_000_000 {
            cov.distinct.extend(o.cov.distinct);
        }
        if cov.pairs.len() < 3_000_000 {
            cov.pairs.extend(o.cov.pairs);
        }
        if let Some(v) = o.viol {
            let f = format!("{dir}/viol{i}.txt");
            let _ = std::fs::write(&f, format!("# seed {seed:016x}\n# kind {}\n# {}\n{}", v.kind, v.msg.replace('\n', " "), o.case.text()));
            rc = 1;
            break;
        }
        if runs % 64 == 1 {
            // The simulation itself must be repeatable.
            let o2 = run_seed(prop, seed, None);
            unreadable += Case::parse(&o.case.text()).map_or(1, |c| (c.ops != o.case.ops) as u64);
            if o2.state != o.state || o2.case.ops != o.case.ops {
                nondet += 1;
                if prop == 15 {
                    let f = format!("{dir}/viol{i}.txt");
                    let _ = std::fs::write(&f, format!("# seed {seed:016x}\n# kind nondeterminism\n# the same operations gave another state\n{}", o.case.text()));
                    rc = 1;
                    break;
                }
            }
        }
        i += n;
    }
    let mut s = String::new();
    for (k, v) in [("runs", runs), ("other", other), ("kf", kf), ("nondet", nondet), ("unreadable", unreadable), ("capped", capped), ("cycles", cov.cycles), ("steps", cov.steps), ("instr", cov.instr), ("accesses", cov.accesses)] {
        s += &format!("{k}={v}\n");
    }
    for (k, v) in &cov.counts {
        s += &format!("@{k}={v}\n");
    }
    for x in &samples {
        s += &format!("#{x}\n");
    }
    for x in &others {
        s += &format!("!{x}\n");
    }
    let _ = std::fs::write(format!("{dir}/stat{id}"), s);
    let dump = |name: &str, h: &HashSet<u64>| {
        let mut b = Vec::with_capacity(h.len() * 8);
        for x in h {
            b.extend(x.to_le_bytes());
        }
        let _ = std::fs::write(format!("{dir}/{name}{id}"), b);
    };
    dump("dist", &cov.distinct);
    dump("pair", &cov.pairs);
    dump("sig", &sigs);
    rc
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

/// CPU time used by a child process, which is what a hang burns whatever else the machine is doing.
fn cpu_time(c: &Child) -> Option<Duration> {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", c.id())).ok()?;
    let mut f = t.rsplit_once(')')?.1.split_whitespace().skip(11);
    let ticks = f.next()?.parse::<u64>().ok()? + f.next()?.parse::<u64>().ok()?;
    Some(Duration::from_millis(ticks * 10))
}

/// Waits until a child ends, has used `limit` of CPU time, or has taken far longer than that.
fn wait_for(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit && (t.elapsed() > limit * 20 || cpu_time(c).is_none_or(|u| u > limit)) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}

/// How long a replay may take.
fn allowance(secs: u64, ops: usize) -> Duration {
    Duration::from_secs(secs + ops as u64 / 50_000)
}

/// Replays a script in a process of its own. None: no violation. Some((kind, text)).
fn replay_file(f: &str, limit: Duration) -> Option<(String, String)> {
    let mut c = Command::new(exe()).args(["replay", f]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    match wait_for(&mut c, limit) {
        None => Some(("hang".into(), "the run does not end".into())),
        Some(s) => {
            use std::io::Read;
            let mut out = String::new();
            let _ = c.stdout.take().unwrap().read_to_string(&mut out);
            match s.code() {
                Some(0) => None,
                Some(1) => {
                    let kind = out.lines().find_map(|l| l.strip_prefix("kind: ")).unwrap_or("?").to_string();
                    let msg = out.lines().find_map(|l| l.strip_prefix("what: ")).unwrap_or("?").to_string();
                    Some((kind, msg))
                }
                Some(2) => None,
                Some(88) => Some(("user data".into(), "the user data pointer did not come through the C interface".into())),
                _ => Some(("abort".into(), format!("the process died: {s}"))),
            }
        }
    }
}

/// Delta debugging over the operations, each candidate replayed in its own process.
fn minimise(case: &Case, kind: &str, tmp: &str, budget: Duration) -> Case {
    let t0 = Instant::now();
    let fixed = if case.twin == TwinMode::Prog { case.ops.iter().position(|o| *o == Op::Mark).map_or(0, |i| i + 1) } else { 0 };
    let bad = |c: &Case| -> bool {
        std::fs::write(tmp, c.text()).is_ok() && replay_file(tmp, allowance(if kind == "hang" { 1 } else { 5 }, c.ops.len())).is_some_and(|r| r.0 == kind)
    };
    let mut cur = case.clone();
    let mut n = 2usize;
    loop {
        let m = cur.ops.len() - fixed;
        if m == 0 {
            break;
        }
        let size = m.div_ceil(n).max(1);
        let mut reduced = false;
        let mut start = fixed;
        while start < cur.ops.len() {
            if t0.elapsed() > budget {
                return cur;
            }
            let end = (start + size).min(cur.ops.len());
            let mut c = cur.clone();
            c.ops.drain(start..end);
            if bad(&c) {
                cur = c;
                reduced = true;
            } else {
                start = end;
            }
        }
        if size == 1 && !reduced {
            break;
        }
        n = if size == 1 { cur.ops.len().max(2) } else { n * 2 };
    }
    cur
}

struct Known {
    prop: String,
    id: String,
    text: String,
}

fn known(root: &str) -> Vec<Known> {
    std::fs::read_to_string(format!("{root}/known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let mut it = l.splitn(3, ' ');
            Some(Known { prop: it.next()?.strip_prefix("property=")?.to_string(), id: it.next()?.strip_prefix("id=")?.to_string(), text: it.next()?.to_string() })
        })
        .collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}

/// Some violations need what earlier runs left behind in the process: a series repeats a worker's runs up to one of them.
#[derive(Clone, Copy)]
struct Series {
    prop: u32,
    base: u64,
    first: u64,
    step: u64,
    total: u64,
}

impl Series {
    const LINE: &'static str = "series ";
    fn text(&self) -> String {
        format!("{}{} {} {} {} {}", Self::LINE, self.prop, self.base, self.first, self.step, self.total)
    }
    fn parse(s: &str) -> Option<Series> {
        let l = s.lines().find_map(|l| l.strip_prefix(Self::LINE))?;
        let v: Vec<u64> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        (v.len() == 5).then(|| Series { prop: v[0] as u32, base: v[1], first: v[2], step: v[3].max(1), total: v[4] })
    }
    /// What the last of the runs comes to: None if nothing.
    fn run(&self) -> Option<(String, String)> {
        let dir = std::env::temp_dir().join(format!("sim-series-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).ok()?;
        let a = [self.prop as u64, self.base, self.first, self.step, self.total, 100_000].map(|x| x.to_string());
        let mut c = Command::new(exe()).arg("worker").args(&a).arg(&dir).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
        let r = match wait_for(&mut c, Duration::from_secs(400)).map(|s| s.code()) {
            None => Some(("hang".to_string(), "the series does not end".to_string())),
            Some(Some(0)) => None,
            Some(Some(1)) => {
                let f = std::fs::read_dir(&dir).ok()?.flatten().find(|e| e.file_name().to_string_lossy().starts_with("viol"));
                let txt = f.and_then(|e| std::fs::read_to_string(e.path()).ok()).unwrap_or_default();
                let kind = txt.lines().find_map(|l| l.strip_prefix("# kind ")).unwrap_or("?").to_string();
                Some((kind, txt.lines().nth(2).unwrap_or("").trim_start_matches("# ").to_string()))
            }
            Some(c) => Some(("abort".to_string(), format!("the process of the series died ({c:?})"))),
        };
        let _ = std::fs::remove_dir_all(&dir);
        r
    }
}

fn first_error(log: &str) -> &str {
    log.lines().find(|l| l.contains("error")).or(log.lines().next()).unwrap_or("")
}

/// A replay file with this line is about the build of the host program in C.
const HEADERS: &str = "headers";

fn check(prop: u32, tier: &str, base: u64, root: &str, again: bool) -> i32 {
    let t0 = Instant::now();
    let id = format!("C{prop:02}");
    let plan = props::plan(prop);
    let (total, cap) = if tier == "thorough" { (plan.thorough, 1500) } else { (plan.quick, 330) };
    let total = std::env::var("SIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(total);
    let n = std::thread::available_parallelism().map_or(4, |x| x.get()).clamp(1, 8) as u64;
    let dir = format!("{root}/target/run-{id}-{}", std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut kids: Vec<(u64, Child, (u64, u64), Instant, Duration)> = (0..n)
        .map(|w| {
            let c = Command::new(exe())
                .args(["worker", &prop.to_string(), &base.to_string(), &w.to_string(), &n.to_string(), &total.to_string(), &cap.to_string(), &dir])
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            (w, c, (0, 0), Instant::now(), Duration::ZERO)
        })
        .collect();
    // Seed, kind, worker, number of the run.
    let mut bad: Vec<(u64, String, u64, u64)> = Vec::new();
    let cur = |w: u64| -> (u64, u64, u64) {
        let b = std::fs::read(format!("{dir}/status{w}")).unwrap_or_default();
        if b.len() == 24 {
            let f = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
            (f(0), f(8), f(16))
        } else {
            (0, 0, 0)
        }
    };
    let mut first_bad: Option<Instant> = None;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        kids.retain_mut(|(w, c, last, since, used)| {
            if let Ok(Some(s)) = c.try_wait() {
                match s.code() {
                    Some(0) | Some(1) => {}
                    Some(88) => bad.push((cur(*w).1, "user data".into(), *w, cur(*w).0)),
                    _ => bad.push((cur(*w).1, "abort".into(), *w, cur(*w).0)),
                }
                return false;
            }
            let (i, seed, beat) = cur(*w);
            if (i, beat) != *last {
                *last = (i, beat);
                *since = Instant::now();
                *used = cpu_time(c).unwrap_or_default();
            } else if i != 0 && since.elapsed() > Duration::from_secs(8) && (since.elapsed() > Duration::from_secs(160) || cpu_time(c).is_none_or(|u| u.saturating_sub(*used) > Duration::from_secs(8))) {
                let _ = c.kill();
                let _ = c.wait();
                bad.push((seed, "hang".into(), *w, i));
                return false;
            }
            true
        });
        let found = !bad.is_empty() && !again || std::fs::read_dir(&dir).is_ok_and(|d| d.flatten().any(|e| e.file_name().to_string_lossy().starts_with("viol")));
        if found {
            let t = *first_bad.get_or_insert_with(Instant::now);
            // Give the others a moment, then stop: the answer is known.
            if t.elapsed() > Duration::from_millis(300) {
                for (_, c, _, _, _) in kids.iter_mut() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                kids.clear();
            }
        }
    }
    let sim_wall = t0.elapsed().as_secs_f64();
    // Collect.
    let mut stat: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut others: Vec<String> = Vec::new();
    let mut dist: HashSet<u64> = HashSet::new();
    let mut pair: HashSet<u64> = HashSet::new();
    let mut sig: HashSet<u64> = HashSet::new();
    for w in 0..n {
        if let Ok(s) = std::fs::read_to_string(format!("{dir}/stat{w}")) {
            for l in s.lines() {
                if let Some(x) = l.strip_prefix('#') {
                    if samples.len() < 4 {
                        samples.push(x.to_string());
                    }
                } else if let Some(x) = l.strip_prefix('!') {
                    println!("not of {id}, therefore not reported by this check: {x}");
                    others.push(x.to_string());
                } else if let Some((k, v)) = l.rsplit_once('=') {
                    let v: u64 = v.parse().unwrap_or(0);
                    match k.strip_prefix('@') {
                        Some(k) => *counts.entry(k.to_string()).or_insert(0) += v,
                        None => *stat.entry(k.to_string()).or_insert(0) += v,
                    }
                }
            }
        }
        for (name, set) in [("dist", &mut dist), ("pair", &mut pair), ("sig", &mut sig)] {
            if let Ok(b) = std::fs::read(format!("{dir}/{name}{w}")) {
                set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
    }
    // Violations.
    let mut cases: Vec<(u64, Case, String, String, Series)> = Vec::new();
    let series = |w: u64, i: u64| Series { prop, base, first: w, step: n, total: i };
    let mut names: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|f| f.starts_with("viol")).collect();
    names.sort();
    for f in names {
        let txt = std::fs::read_to_string(format!("{dir}/{f}")).unwrap_or_default();
        let get = |p: &str| txt.lines().find_map(|l| l.strip_prefix(p)).unwrap_or("").to_string();
        let seed = u64::from_str_radix(&get("# seed "), 16).unwrap_or(0);
        let msg = txt.lines().nth(2).unwrap_or("").trim_start_matches("# ").to_string();
        let i: u64 = f.trim_start_matches("viol").trim_end_matches(".txt").parse().unwrap_or(0);
        let c = Case::parse(&txt).unwrap_or_else(|e| {
            println!("{e}");
            Case::parse(&format!("prop {id}")).unwrap()
        });
        cases.push((seed, c, get("# kind "), msg, series(i % n, i + 1)));
    }
    let mut lost = 0;
    for (seed, kind, w, i) in &bad {
        if !cases.is_empty() {
            break;
        }
        let f = format!("{dir}/rec{seed}");
        let mut c = Command::new(exe()).args(["record", &prop.to_string(), &seed.to_string(), &f]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let _ = wait_for(&mut c, Duration::from_secs(12));
        if let Ok(c) = Case::parse(&std::fs::read_to_string(&f).unwrap_or_default()) {
            // A worker ended or held up by the machine rather than by the code under test does not count.
            let _ = std::fs::write(&f, c.text());
            if replay_file(&f, allowance(5, c.ops.len())).is_some() {
                cases.push((*seed, c, kind.clone(), format!("the simulated core did not come back ({kind})"), series(*w, *i)));
                continue;
            }
        }
        if let Some((k, m)) = series(*w, *i).run() {
            cases.push((*seed, Case::parse(&format!("prop {id}")).unwrap(), k, m, series(*w, *i)));
            continue;
        }
        lost += 1;
    }
    let mut nviol = 0;
    let mut rc = 0;
    if prop == 14 && !core::CHOST_ERROR.is_empty() {
        nviol = 1;
        rc = 1;
        let rdir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{id}-headers.txt");
        let _ = std::fs::write(&path, format!("# violation of {id}: sim/c/chost.c cannot be built with include/m68000; replay with: ./replay.sh <this file>\n{HEADERS}\n# {}\n", core::CHOST_ERROR.replace('\n', "\n# ")));
        println!("{id}: headers: {}", first_error(core::CHOST_ERROR));
        println!("VIOLATION property={id} replay={path}");
    } else if let Some((seed, case, kind, msg, ser)) = cases.into_iter().next() {
        nviol = 1;
        rc = 1;
        let rdir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{id}-{seed:016x}.txt");
        let full = format!("{dir}/full.txt");
        let _ = std::fs::write(&full, case.text());
        let again = replay_file(&full, allowance(5, case.ops.len()));
        let alone = again.is_some();
        let (min, kind, msg) = match again {
            Some((k, _)) => {
                let m = minimise(&case, &k, &format!("{dir}/cand.txt"), Duration::from_secs(60));
                let _ = std::fs::write(&full, m.text());
                let last = replay_file(&full, allowance(5, m.ops.len()));
                let what = last.map_or(msg.clone(), |l| l.1);
                (m, k, what)
            }
            None => (case, kind, msg),
        };
        // Without effect on its own: the whole series is the replay.
        let body = if alone { min.text() } else { format!("# not in a process of its own: the replay is the whole series of runs before it\n{}\n", ser.text()) };
        let _ = std::fs::write(&path, format!("# violation of {id} found with seed {seed:016x} (VERIF_SEED={base}, tier {tier}); replay with: ./replay.sh <this file>\n# kind: {kind}\n# what: {}\n{body}", msg.replace('\n', " ")));
        println!("{id}: {kind}: {msg}");
        println!("VIOLATION property={id} replay={path}");
    }
    let g = |k: &str| stat.get(k).copied().unwrap_or(0);
    if g("kf") > 0 {
        for k in known(root) {
            if k.prop == id {
                println!("KNOWN-FINDING: property={id} {}: {} (seen {} times)", k.id, k.text, g("kf"));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = g("runs") as f64 / sim_wall * 3600.0;
    let cyc = g("cycles");
    let mut e = String::new();
    e += &format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {base},\n \"level\": \"exploration\",\n \"coverage\": {{\n", js(&id), js(tier));
    e += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", g("runs"), sig.len());
    e += &format!(
        "  \"rule\": {},\n",
        js(&format!(
            "One evaluation is one simulated run: a seeded script of host writes, requests, injected faults and steps against the real core ({} profiles). Distinct: different memory image, operations or values (hashed). Non-trivial: at least 10 instructions executed{}.",
            plan.profs.len(),
            if plan.trigger.is_empty() { String::new() } else { format!(" and at least one of: {}", plan.trigger.join(", ")) }
        ))
    );
    e += &format!("  \"samples\": [{}],\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    e += &format!("  \"profiles\": [{}],\n", plan.profs.iter().map(|x| js(&format!("{} (weight {})", x.1.name, x.0))).collect::<Vec<_>>().join(", "));
    e += &format!("  \"runs_per_hour\": {:.0},\n  \"seeds\": {},\n  \"seeds_per_hour\": {:.0},\n", per_hour, g("runs"), per_hour);
    e += &format!("  \"simulated_clock_cycles\": {cyc},\n  \"simulated_seconds_at_10_MHz\": {:.3},\n", cyc as f64 / 1e7);
    e += &format!("  \"steps\": {},\n  \"instructions\": {},\n  \"bus_accesses\": {},\n", g("steps"), g("instr"), g("accesses"));
    let (mut f, mut o) = (Vec::new(), Vec::new());
    for (k, v) in &counts {
        let x = format!("{}: {v}", js(k));
        if k.starts_with("fault") || k.starts_with("host") || k.starts_with("new core") || k.contains("unrelated") || k.contains("snapshot") {
            f.push(x)
        } else {
            o.push(x)
        }
    }
    e += &format!("  \"faults_and_disturbances_injected\": {{{}}},\n  \"events\": {{{}}},\n", f.join(", "), o.join(", "));
    e += &format!("  \"distinct_situations\": {},\n  \"distinct_successive_situation_pairs\": {},\n  \"situation_measure\": \"instruction kind, addressing mode, size, outcome vector, API, CPU type, bus width, mode, trace, kind of access refused, misalignment, classes and number of exceptions taken at the boundary\",\n", dist.len(), pair.len());
    e += &format!("  \"divergences_belonging_to_other_properties\": {},\n  \"divergences_belonging_to_other_properties_samples\": [{}],\n  \"repeatability_failures\": {},\n  \"known_finding_occurrences\": {},\n  \"time_capped_workers\": {},\n  \"workers_lost_to_the_machine\": {lost},\n", g("other"), others.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "), g("nondet"), if matches!(prop, 9 | 21) { g("kf") } else { 0 }, g("capped"));
    let by_c = if cfg!(chost) && prop == 14 { ", the shipped C headers (compiled into a host program in C)" } else { "" };
    e += &format!("  \"real_code\": \"m68000 and m68000-ffi from /repo's working tree: decoding, execution, exceptions, run loops, disassembly, C functions, slice memories{by_c}\",\n");
    e += "  \"stubs\": \"host program, bus, RAM, ROM, device registers, interrupt sources (all simulated; no clock, thread or I/O exists in the library)\"\n },\n";
    e += " \"assumptions\": [\"the reference model transcribes the manuals correctly\", \"timing figures are those of the crate's timing tables as first read\"],\n";
    e += &format!(" \"wall_s\": {wall:.2},\n \"violations\": {nviol}\n}}\n");
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let _ = std::fs::write(format!("{root}/evidence/{id}.json"), e);
    println!("{id} {tier}: {} runs, {} instructions, {} situations, {} divergences of other properties, {:.1} s", g("runs"), g("instr"), dist.len(), g("other"), wall);
    if g("unreadable") > 0 {
        println!("{} recorded runs do not read back", g("unreadable"));
    }
    if lost > 0 && rc == 0 {
        println!("{lost} workers ended early and the runs they were at are fine on their own and in their series");
        if !again {
            let _ = std::fs::remove_dir_all(&dir);
            return check(prop, tier, base, root, true);
        }
    }
    if g("runs") == 0 && rc == 0 {
        println!("no run was completed");
        rc = 3;
    }
    let _ = std::fs::remove_dir_all(&dir);
    rc
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let num = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let rc = match s(1) {
        "worker" => worker(num(2) as u32, num(3), num(4), num(5), num(6), num(7), s(8)),
        "check" => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_default();
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            let base = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            check(s(2).trim_start_matches('C').parse().unwrap_or(0), tier, base, s(3), false)
        }
        "record" => {
            core::quiet_panics();
            let mut f = std::fs::File::create(s(4)).unwrap();
            let mut sink = |c: &Case, o: Option<&Op>| {
                let _ = match o {
                    None => f.write_all(c.header().as_bytes()),
                    Some(o) => f.write_all((o.text() + "\n").as_bytes()),
                };
            };
            let o = run_seed(num(2) as u32, num(3), Some(&mut sink));
            if let Some(v) = o.viol {
                println!("{v:?}");
            }
            0
        }
        "replay" if std::fs::read_to_string(s(2)).is_ok_and(|t| t.lines().any(|l| l == HEADERS)) => match core::CHOST_ERROR {
            "" => 0,
            e => {
                println!("kind: headers\nwhat: {}", first_error(e));
                println!("VIOLATION property=C14 replay={}", s(2));
                1
            }
        },
        "replay" if std::fs::read_to_string(s(2)).is_ok_and(|t| Series::parse(&t).is_some()) => {
            let r = Series::parse(&std::fs::read_to_string(s(2)).unwrap()).unwrap();
            match r.run() {
                None => 0,
                Some((kind, msg)) => {
                    println!("kind: {kind}\nwhat: {}", msg.replace('\n', " "));
                    println!("VIOLATION property=C{:02} replay={}", r.prop, s(2));
                    1
                }
            }
        }
        "replay" => {
            core::quiet_panics();
            match std::fs::read_to_string(s(2)).map_err(|e| e.to_string()).and_then(|t| Case::parse(&t)) {
                Err(e) => {
                    eprintln!("{e}");
                    2
                }
                Ok(c) => match replay(&c) {
                    None => 0,
                    Some(d) => {
                        println!("kind: {}\nwhat: {}", d.kind, d.msg.replace('\n', " "));
                        println!("VIOLATION property=C{:02} replay={}", c.prop, s(2));
                        1
                    }
                },
            }
        }
        "probe" => {
            // One property for some seconds of CPU time in one thread, no recording: a development aid.
            core::quiet_panics();
            let (prop, secs) = (num(2) as u32, s(3).parse::<f64>().unwrap_or(1.0));
            let t0 = Instant::now();
            let mut i = 0;
            while t0.elapsed().as_secs_f64() < secs {
                let o = run_seed(prop, seed_of(1, prop, i), None);
                if let Some(v) = o.viol {
                    println!("{} after {i}: {}", v.kind, v.msg.replace('\n', " "));
                    std::process::exit(1);
                }
                i += 1;
            }
            0
        }
        "survey" => {
            // All divergences found by a property's runs, grouped: a development aid.
            core::quiet_panics();
            let prop = num(2) as u32;
            let mut seen: BTreeMap<String, (u64, String, u64)> = BTreeMap::new();
            for i in 0..num(3) {
                let seed = seed_of(1, prop, i);
                let (case, pf, gs) = pick_case(prop, seed);
                let mut w = World::new(&case);
                let mut g = Gen::new(pf, case.map, gs);
                let mut s = Sim { w: &mut w, rec: Rec { ops: Vec::new(), sink: None } };
                let turns = if pf.twin == TwinMode::Prog { 1 } else { pf.turns };
                for t in 0..turns {
                    if pf.twin == TwinMode::Prog {
                        g.program(&mut s);
                    } else {
                        if t == 0 {
                            g.start(&mut s);
                        }
                        g.turn(&mut s);
                    }
                    for d in std::mem::take(&mut s.w.divs) {
                        let kind = d.msg.split('(').nth(1).and_then(|x| x.split(')').next()).unwrap_or("").to_string();
                        let key = format!("{} {} {:?}", d.kind, kind, props::ALL.filter(|i| d.mask >> i & 1 != 0).collect::<Vec<_>>());
                        let e = seen.entry(key).or_insert((0, d.msg.clone(), seed));
                        e.0 += 1;
                    }
                }
            }
            for (k, (n, m, s)) in seen {
                println!("{n:6} {k} [{s}]\n       {m}");
            }
            0
        }
        "decode" => {
            let d = props::decode_diff();
            let mut m: BTreeMap<String, Vec<u16>> = BTreeMap::new();
            for x in d {
                m.entry(format!("{:?} / {:?}", m68000::isa::Isa::from(x), model::kind(x))).or_default().push(x);
            }
            for (k, v) in m {
                println!("{k}: {} {:04x?}", v.len(), &v[..v.len().min(40)]);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check Cnn ROOT | replay FILE | record PROP SEED FILE | survey PROP RUNS | decode");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(rc);
}
