//! Runs simulated histories, each in its own forked process, merges what they covered, minimises
//! and replays failures, and writes the evidence.
use crate::ctx::*;
use crate::json;
use crate::rng::{hash_bytes, mix, Rng};
use crate::seams;
use crate::sys;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

pub type Scenario = fn(&mut Ctx) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub scenario: Scenario,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub struct RunOut {
    pub verdict: Option<(String, String)>,
    pub hash: u64,
    pub steps: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub sim_ns: u128,
    pub counters: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    pub trace: Vec<String>,
    pub choices: Vec<u64>,
    pub harness_error: Option<String>,
}

pub fn write_out(c: &mut Ctx, verdict: Option<(&str, &str)>) {
    let mut o = String::new();
    if let Some((k, m)) = verdict {
        o.push_str(&format!("V {}\t{}\n", k, m.replace('\n', " | ")));
    }
    o.push_str(&format!(
        "H {} {} {} {} {}\n",
        c.hash,
        unsafe { seams::STEPS },
        c.events,
        c.nontrivial as u8,
        c.sim_ns
    ));
    for (k, v) in &c.counters {
        o.push_str(&format!("K {} {}\n", v, k));
    }
    let sg: Vec<String> = c.sigs.iter().map(|x| x.to_string()).collect();
    o.push_str(&format!("S {}\n", sg.join(" ")));
    for t in &c.trace {
        o.push_str(&format!("T {}\n", t.replace('\n', " | ")));
    }
    unsafe {
        let s = &mut *c.shm;
        let b = o.as_bytes();
        let n = b.len().min(OUT_CAP);
        s.out[..n].copy_from_slice(&b[..n]);
        s.out_len = n as u64;
        s.done = 1;
    }
}

/// Runs the body of one simulated history in this (forked) process; never returns.
fn child(shm: *mut Shm, sc: Scenario, src: Source, keep_trace: bool, thorough: bool, seed: u64) -> ! {
    unsafe {
        sys::alarm(60);
        // a run that allocates without end dies by itself, not by the machine's memory guard
        sys::setrlimit(9, &[3 << 30, 3 << 30]);
        let mut c = Ctx::new(Inner {
            shm,
            src,
            hash: 0xcbf29ce484222325,
            events: 0,
            keep_trace,
            trace: vec![],
            counters: BTreeMap::new(),
            sigs: vec![],
            nontrivial: false,
            sim_ns: 0,
            thorough,
        });
        CUR = &mut c;
        seams::COV = (*shm).cov.as_mut_ptr();
        seams::STEPS = 0;
        seams::STEP_LIMIT = 2_000_000_000;
        seams::HASH_SEED = mix(seed ^ 0x5eed);
        let k = seams::clock();
        k.real_ns = 1_700_000_000_000_000_000;
        k.mono_ns = 1_000_000_000_000;
        k.tick_ns = 0;
        k.reads = 0;
        k.log.clear();
        k.log.reserve(1024);
        seams::IN_RUN = true;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc(&mut *CUR)));
        seams::IN_RUN = false;
        let v = match r {
            Ok(Ok(())) => None,
            Ok(Err(v)) => Some((v.class, v.msg)),
            Err(_) => {
                let (m, loc) = seams::last_panic();
                if seams::harness_location(&loc) {
                    seams::harness_error(&format!("harness panic at {loc}: {m}"));
                }
                Some(("panic".into(), format!("the library panicked: {m} ({loc})")))
            }
        };
        if let Some((k, m)) = &v {
            let c = &mut *CUR;
            if c.keep_trace {
                c.trace.push(format!("VIOLATION {k}: {m}"));
            }
        }
        write_out(&mut *CUR, v.as_ref().map(|(a, b)| (a.as_str(), b.as_str())));
        sys::_exit(0)
    }
}

pub fn run_one(
    shm: *mut Shm, sc: Scenario, src: Source, keep_trace: bool, thorough: bool, seed: u64,
) -> RunOut {
    unsafe {
        let s = &mut *shm;
        s.n_choices = 0;
        s.out_len = 0;
        s.done = 0;
        let pid = sys::fork();
        if pid == 0 {
            child(shm, sc, src, keep_trace, thorough, seed);
        }
        assert!(pid > 0, "fork failed");
        let mut st = 0i32;
        while sys::waitpid(pid, &mut st, 0) != pid {}
        let mut r = RunOut {
            verdict: None,
            hash: 0,
            steps: 0,
            events: 0,
            nontrivial: false,
            sim_ns: 0,
            counters: BTreeMap::new(),
            sigs: vec![],
            trace: vec![],
            choices: s.choices[..s.n_choices as usize].to_vec(),
            harness_error: None,
        };
        if s.done == 0 {
            let sig = st & 0x7f;
            let code = (st >> 8) & 0xff;
            if sig == 14 {
                r.verdict = Some(("hang".into(), "the run did not finish (60 s watchdog)".into()));
            } else if sig != 0 {
                r.verdict = Some(("crash".into(), format!("the run was killed by signal {sig}")));
            } else {
                r.harness_error = Some(format!("run exited with code {code} and no result"));
            }
            return r;
        }
        let txt = String::from_utf8_lossy(&s.out[..s.out_len as usize]).into_owned();
        for l in txt.lines() {
            let (k, rest) = l.split_at(2.min(l.len()));
            match k {
                "V " => {
                    let (a, b) = rest.split_once('\t').unwrap_or((rest, ""));
                    r.verdict = Some((a.to_string(), b.to_string()));
                }
                "H " => {
                    let p: Vec<&str> = rest.split(' ').collect();
                    r.hash = p[0].parse().unwrap();
                    r.steps = p[1].parse().unwrap();
                    r.events = p[2].parse().unwrap();
                    r.nontrivial = p[3] == "1";
                    r.sim_ns = p[4].parse().unwrap();
                }
                "K " => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    r.counters.insert(b.to_string(), a.parse().unwrap());
                }
                "S " => r.sigs = rest.split(' ').filter_map(|x| x.parse().ok()).collect(),
                "T " => r.trace.push(rest.to_string()),
                _ => {}
            }
        }
        r
    }
}

pub fn run_seed(master: u64, id: &str, i: u64) -> u64 {
    mix(mix(master ^ hash_bytes(0xcbf29ce484222325, id.as_bytes())) ^ i.wrapping_mul(0x9E3779B97F4A7C15))
}

#[derive(Default)]
pub struct Agg {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    events: u64,
    sim_ns: u128,
    counters: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    nt_hashes: HashSet<u64>,
    sigs: HashSet<u64>,
    fails: Vec<(u64, String, String)>,
    herr: Vec<String>,
    capped: bool,
}

const SIG_CAP: usize = 400_000;

fn worker_body(
    p: &Prop, master: u64, k: u64, w: u64, runs: u64, deadline: f64, thorough: bool, stop: *mut u64,
    cov: *mut u8, start: u64,
) -> String {
    let shm = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
    let mut a = Agg::default();
    let mut i = start + k;
    while i < start + runs {
        if unsafe { std::ptr::read_volatile(stop) } <= i {
            break;
        }
        if sys::real_now() > deadline {
            a.capped = true;
            break;
        }
        let seed = run_seed(master, p.id, i);
        let r = run_one(shm, p.scenario, Source::Random(Rng::new(seed)), false, thorough, seed);
        if let Some(e) = r.harness_error {
            a.herr.push(format!("run {i}: {e}"));
            break;
        }
        a.runs += 1;
        a.steps += r.steps;
        a.events += r.events;
        a.sim_ns += r.sim_ns;
        for (n, v) in r.counters {
            *a.counters.entry(n).or_insert(0) += v;
        }
        a.hashes.insert(r.hash);
        if r.nontrivial {
            a.nontrivial += 1;
            a.nt_hashes.insert(r.hash);
        }
        if a.sigs.len() < SIG_CAP {
            a.sigs.extend(r.sigs);
        }
        if let Some((c, m)) = r.verdict {
            a.fails.push((i, c, m));
            unsafe {
                if std::ptr::read_volatile(stop) > i {
                    std::ptr::write_volatile(stop, i)
                }
            }
            break;
        }
        i += w;
    }
    unsafe {
        for j in 0..COV_CAP {
            if (*shm).cov[j] != 0 {
                *cov.add(j) = 1;
            }
        }
    }
    let mut o = String::new();
    o.push_str(&format!("R {} {} {} {} {} {}\n", a.runs, a.nontrivial, a.steps, a.events, a.sim_ns, a.capped as u8));
    for (k, v) in &a.counters {
        o.push_str(&format!("K {} {}\n", v, k));
    }
    for h in &a.nt_hashes {
        o.push_str(&format!("N {h}\n"));
    }
    for h in a.hashes.difference(&a.nt_hashes) {
        o.push_str(&format!("M {h}\n"));
    }
    for h in &a.sigs {
        o.push_str(&format!("G {h}\n"));
    }
    for (i, c, m) in &a.fails {
        o.push_str(&format!("F {}\t{}\t{}\n", i, c, m));
    }
    for e in &a.herr {
        o.push_str(&format!("E {}\n", e));
    }
    o
}

pub fn batch(p: &Prop, master: u64, runs: u64, workers: u64, wall: f64, thorough: bool, start: u64) -> (Agg, u64) {
    let stop = sys::shared(4096) as *mut u64;
    unsafe { *stop = u64::MAX };
    let cov = sys::shared(COV_CAP);
    let deadline = sys::real_now() + wall;
    let dir = std::env::temp_dir().join(format!("dst-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut pids = vec![];
    for k in 0..workers {
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            let o = worker_body(p, master, k, workers, runs, deadline, thorough, stop, cov, start);
            std::fs::write(dir.join(format!("{k}")), o).unwrap();
            unsafe { sys::_exit(0) };
        }
        assert!(pid > 0);
        pids.push(pid);
    }
    let mut bad = false;
    for pid in pids {
        let mut st = 0;
        unsafe { while sys::waitpid(pid, &mut st, 0) != pid {} }
        bad |= st != 0;
    }
    let mut a = Agg::default();
    for k in 0..workers {
        let t = std::fs::read_to_string(dir.join(format!("{k}"))).unwrap_or_default();
        for l in t.lines() {
            let (tag, rest) = l.split_at(2);
            match tag {
                "R " => {
                    let f: Vec<u128> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                    a.runs += f[0] as u64;
                    a.nontrivial += f[1] as u64;
                    a.steps += f[2] as u64;
                    a.events += f[3] as u64;
                    a.sim_ns += f[4];
                    a.capped |= f[5] != 0;
                }
                "K " => {
                    let (v, n) = rest.split_once(' ').unwrap();
                    *a.counters.entry(n.to_string()).or_insert(0) += v.parse::<u64>().unwrap();
                }
                "N " => {
                    let h = rest.parse().unwrap();
                    a.nt_hashes.insert(h);
                    a.hashes.insert(h);
                }
                "M " => {
                    a.hashes.insert(rest.parse().unwrap());
                }
                "G " => {
                    a.sigs.insert(rest.parse().unwrap());
                }
                "F " => {
                    let f: Vec<&str> = rest.splitn(3, '\t').collect();
                    a.fails.push((f[0].parse().unwrap(), f[1].into(), f[2].into()));
                }
                "E " => a.herr.push(rest.to_string()),
                _ => {}
            }
        }
        let _ = std::fs::remove_file(dir.join(format!("{k}")));
    }
    let _ = std::fs::remove_dir(&dir);
    if bad && a.herr.is_empty() {
        a.herr.push("a worker process failed".into());
    }
    a.fails.sort();
    let blocks = unsafe { (0..COV_CAP).filter(|&j| *cov.add(j) != 0).count() as u64 };
    (a, blocks)
}

/// Shrinks a failing choice sequence while the same class of violation persists.
pub fn minimise(p: &Prop, class: &str, mut best: Vec<u64>, thorough: bool, seed: u64, wall: f64) -> Vec<u64> {
    let shm = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
    let end = sys::real_now() + wall;
    let try_ = |c: &[u64]| -> Option<Vec<u64>> {
        let r = run_one(shm, p.scenario, Source::Replay(c.to_vec(), 0), false, thorough, seed);
        match r.verdict {
            Some((k, _)) if k == class => {
                let mut v = r.choices;
                while v.last() == Some(&0) {
                    v.pop();
                }
                Some(v)
            }
            _ => None,
        }
    };
    match try_(&best) {
        Some(v) => {
            if v.len() <= best.len() {
                best = v
            }
        }
        None => return best,
    }
    let better = |a: &Vec<u64>, b: &Vec<u64>| {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && sys::real_now() < end {
            let mut i = best.len();
            while i > 0 && sys::real_now() < end {
                let a = i.saturating_sub(size);
                let mut c = best.clone();
                c.drain(a..i.min(c.len()));
                if let Some(v) = try_(&c) {
                    if better(&v, &best) {
                        best = v;
                        i = a.min(best.len());
                        continue;
                    }
                }
                i = a;
            }
            size /= 2;
        }
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() && sys::real_now() < end {
                let b = (i + size).min(best.len());
                if best[i..b].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..b].iter_mut().for_each(|x| *x = 0);
                    if let Some(v) = try_(&c) {
                        if better(&v, &best) {
                            best = v;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && sys::real_now() < end {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && sys::real_now() < end {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match try_(&c) {
                    Some(v) if better(&v, &best) => {
                        best = v;
                        if i >= best.len() {
                            break;
                        }
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before || sys::real_now() >= end {
            return best;
        }
    }
}

fn known_findings(root: &str, id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?;
            let key = it.next()?.strip_prefix("key=")?;
            let what = it.next()?;
            (p == id).then(|| (key.to_string(), what.to_string()))
        })
        .collect()
}
fn load_known(root: &str, id: &str) {
    let k = known_findings(root, id).into_iter().map(|x| x.0).collect();
    unsafe { *std::ptr::addr_of_mut!(crate::ctx::KNOWN) = k };
}

pub fn main(props: &[Prop]) {
    seams::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let master: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let workers: u64 = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(find(&args[2]), &root, master, thorough, workers)),
        Some("replay") => std::process::exit(replay(props, &args[2])),
        Some("one") => {
            // one <id> <run index>: print the trace of a single run
            let p = find(&args[2]);
            let i: u64 = args[3].parse().unwrap();
            let seed = run_seed(master, p.id, i);
            let shm = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
            let r = run_one(shm, p.scenario, Source::Random(Rng::new(seed)), true, thorough, seed);
            for t in &r.trace {
                println!("{t}");
            }
            println!("verdict {:?} hash {:016x} steps {} choices {} counters {:?}", r.verdict, r.hash, r.steps, r.choices.len(), r.counters);
        }
        Some("hashes") => {
            // hashes <id> <n>: event-log hash, steps and choices of n runs (determinism self-test)
            let p = find(&args[2]);
            let n: u64 = args[3].parse().unwrap();
            let shm = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
            for i in 0..n {
                let seed = run_seed(master, p.id, i);
                let r = run_one(shm, p.scenario, Source::Random(Rng::new(seed)), false, thorough, seed);
                let ch = r.choices.iter().fold(0u64, |h, x| mix(h ^ x));
                println!("{i} {:016x} {} {} {:016x} {:?}", r.hash, r.steps, r.choices.len(), ch, r.verdict);
            }
        }
        Some("list") => props.iter().for_each(|p| println!("{}", p.id)),
        _ => {
            eprintln!("usage: dst check ID | replay FILE | one ID RUN | hashes ID N | list");
            std::process::exit(2);
        }
    }
}

fn replay(props: &[Prop], file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let mut id = "";
    let mut class = "";
    let mut seed = 0u64;
    let mut thorough = false;
    let mut choices = vec![];
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("property=") {
            id = x
        } else if let Some(x) = l.strip_prefix("class=") {
            class = x
        } else if let Some(x) = l.strip_prefix("seed=") {
            seed = x.parse().unwrap()
        } else if let Some(x) = l.strip_prefix("tier=") {
            thorough = x == "thorough"
        } else if let Some(x) = l.strip_prefix("choices=") {
            choices = x.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
        }
    }
    let p = props.iter().find(|p| p.id == id).expect("property");
    let shm = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
    let r = run_one(shm, p.scenario, Source::Replay(choices, 0), true, thorough, seed);
    for t in &r.trace {
        println!("{t}");
    }
    match r.verdict {
        Some((c, m)) if c == class => {
            println!("{m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        v => {
            println!("not reproduced: expected class {class}, got {v:?}");
            0
        }
    }
}

fn check(p: &Prop, root: &str, master: u64, thorough: bool, workers: u64) -> i32 {
    let t0 = sys::real_now();
    let (runs, wall) = if thorough { (p.thorough_runs, 780.0) } else { (p.quick_runs, 240.0) };
    let known = known_findings(root, p.id);
    let mut total = Agg::default();
    let blocks;
    let violation;
    let mut suppressed: BTreeMap<String, u64> = BTreeMap::new();
    load_known(root, p.id);
    let a;
    (a, blocks) = batch(p, master, runs, workers, wall, thorough, 0);
    total.runs = a.runs;
    total.nontrivial = a.nontrivial;
    total.steps = a.steps;
    total.events = a.events;
    total.sim_ns = a.sim_ns;
    total.capped = a.capped;
    total.counters = a.counters;
    total.hashes = a.hashes;
    total.nt_hashes = a.nt_hashes;
    total.sigs = a.sigs;
    if !a.herr.is_empty() {
        eprintln!("HARNESS-ERROR {}: {}", p.id, a.herr.join("; "));
        return 2;
    }
    violation = a.fails.into_iter().next();
    for (k, v) in &total.counters {
        if let Some(k) = k.strip_prefix("known.") {
            suppressed.insert(k.to_string(), *v);
        }
    }
    let explored_wall = sys::real_now() - t0;
    for (_k, what) in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, what);
    }
    // samples: the first simulated histories, written out
    let shm = sys::shared(std::mem::size_of::<Shm>()) as *mut Shm;
    let mut samples = vec![];
    for i in 0..2 {
        let seed = run_seed(master, p.id, i);
        let r = run_one(shm, p.scenario, Source::Random(Rng::new(seed)), true, thorough, seed);
        let tr: Vec<String> = r.trace.iter().take(40).map(|x| json::s(x)).collect();
        samples.push(json::obj(&[
            ("run".into(), i.to_string()),
            ("run_seed".into(), json::s(&format!("{seed:#x}"))),
            ("events".into(), r.events.to_string()),
            ("history_head".into(), json::arr(&tr)),
        ]));
    }
    let mut code = 0;
    let mut replay_file = String::new();
    if let Some((i, class, msg)) = &violation {
        code = 1;
        let seed = run_seed(master, p.id, *i);
        let r = run_one(shm, p.scenario, Source::Random(Rng::new(seed)), false, thorough, seed);
        let min = minimise(p, class, r.choices, thorough, seed, 45.0);
        let fin = run_one(shm, p.scenario, Source::Replay(min.clone(), 0), true, thorough, seed);
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        replay_file = format!("{dir}/{}-{:08x}.replay", p.id, mix(seed ^ min.len() as u64) as u32);
        let mut f = std::fs::File::create(&replay_file).unwrap();
        let cs: Vec<String> = min.iter().map(|x| x.to_string()).collect();
        writeln!(f, "property={}\nclass={}\nmaster_seed={}\nrun={}\nseed={}\ntier={}\nchoices={}\n# minimised history and fault trace (from {} choices of the original run):",
            p.id, class, master, i, seed, if thorough { "thorough" } else { "quick" }, cs.join(","), r.events).unwrap();
        for t in &fin.trace {
            writeln!(f, "# {t}").unwrap();
        }
        println!("{}: {}", class, fin.verdict.as_ref().map(|v| v.1.as_str()).unwrap_or(msg));
        println!("run {} seed {:#x}, minimised to {} choices, {} events", i, seed, min.len(), fin.events);
        println!("VIOLATION property={} replay={}", p.id, replay_file);
    }
    // evidence
    let wall_s = sys::real_now() - t0;
    let faults: Vec<(String, String)> = total
        .counters
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("fault.").map(|n| (n.to_string(), v.to_string())))
        .collect();
    let probes: Vec<(String, String)> = total
        .counters
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("probe.").map(|n| (n.to_string(), v.to_string())))
        .collect();
    let other: Vec<(String, String)> = total
        .counters
        .iter()
        .filter(|(k, _)| !k.starts_with("probe.") && !k.starts_with("fault."))
        .map(|(k, v)| (k.clone(), v.to_string()))
        .collect();
    let cov = json::obj(&[
        ("evaluations".into(), total.runs.to_string()),
        ("distinct_nontrivial".into(), total.nt_hashes.len().to_string()),
        ("rule".into(), json::s(p.rule)),
        ("samples".into(), json::arr(&samples)),
        ("distinct_histories".into(), total.hashes.len().to_string()),
        ("distinct_states_or_interleavings".into(), total.sigs.len().to_string()),
        ("history_events".into(), total.events.to_string()),
        ("library_basic_block_steps".into(), total.steps.to_string()),
        ("basic_blocks_reached".into(), blocks.to_string()),
        ("simulated_seconds".into(), (total.sim_ns / 1_000_000_000).to_string()),
        ("runs_per_hour".into(), format!("{:.0}", total.runs as f64 / explored_wall.max(1e-9) * 3600.0)),
        ("seeds_per_hour".into(), format!("{:.0}", total.runs as f64 / explored_wall.max(1e-9) * 3600.0)),
        ("faults_injected".into(), json::obj(&faults)),
        ("probes".into(), json::obj(&probes)),
        ("counts".into(), json::obj(&other)),
        ("stopped_by_wall_budget".into(), total.capped.to_string()),
        ("known_findings_seen".into(), json::obj(&suppressed.iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<Vec<_>>())),
        ("real_components".into(), json::s(p.real)),
        ("stubbed_components".into(), json::s(p.stub)),
        ("workers".into(), workers.to_string()),
    ]);
    let asm: Vec<String> = p.assumptions.iter().map(|x| json::s(x)).collect();
    let e = json::obj(&[
        ("property".into(), json::s(p.id)),
        ("tier".into(), json::s(if thorough { "thorough" } else { "quick" })),
        ("seed".into(), master.to_string()),
        ("level".into(), json::s("exploration")),
        ("coverage".into(), cov),
        ("assumptions".into(), json::arr(&asm)),
        ("wall_s".into(), format!("{wall_s:.2}")),
        ("violations".into(), (violation.is_some() as u8).to_string()),
    ]);
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{}.json", p.id), e + "\n").expect("evidence");
    println!(
        "{}: {} runs, {} distinct non-trivial, {} states, {:.1}s{}{}",
        p.id,
        total.runs,
        total.nt_hashes.len(),
        total.sigs.len(),
        wall_s,
        if total.capped { " (wall budget reached)" } else { "" },
        if replay_file.is_empty() { "" } else { " VIOLATED" },
    );
    code
}
