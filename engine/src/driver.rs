//! Exhaustive enumeration driver.
//!
//! A check is a list of `Space`s; a space is a finite set of cases numbered `0..len`, each case
//! decodable from its number, so the whole space is enumerated, split in chunks, each chunk in a
//! process of its own.  The number of the case being run is kept in a file in /dev/shm, so that
//! an abort, stack overflow or hang of the code under test is attributed to its case and reported
//! as a violation instead of taking the engine down.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn hash64(s: &[u8]) -> u64 {
    // FNV-1a with a final mix; stable between processes.
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

/// What one case reports.
#[derive(Default)]
pub struct Rec {
    pub evals: u64,
    pub traces: u64,
    distinct: HashSet<u64>,
    states: HashSet<u64>,
    transitions: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    /// (signature, detail)
    viol: Vec<(String, String)>,
    samples: Vec<String>,
    beat: Option<(fs::File, Instant)>,
}

impl Rec {
    /// A distinct, non-trivial case (by the check's rule).
    pub fn distinct(&mut self, what: &str) {
        self.distinct.insert(hash64(what.as_bytes()));
    }
    pub fn eval(&mut self) {
        self.evals += 1;
        // Shows the parent that a long case is making progress.
        if let Some((f, last)) = &mut self.beat {
            if last.elapsed() > Duration::from_secs(1) {
                *last = Instant::now();
                let _ = f.write_at(&self.evals.to_le_bytes(), 8);
            }
        }
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn state(&mut self, s: &str) {
        self.states.insert(hash64(s.as_bytes()));
    }
    pub fn step(&mut self, from: &str, op: &str, to: &str) {
        self.states.insert(hash64(from.as_bytes()));
        self.states.insert(hash64(to.as_bytes()));
        self.transitions
            .insert(hash64(format!("{from}\x01{op}\x01{to}").as_bytes()));
    }
    pub fn count(&mut self, what: &str) {
        self.count_n(what, 1)
    }
    pub fn count_n(&mut self, what: &str, n: u64) {
        match self.counters.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(what.to_string(), n);
            }
        }
    }
    pub fn violation(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let sig = sig.into();
        self.count("violations_raw");
        if self.viol.len() < 40 && !self.viol.iter().any(|(s, _)| *s == sig) {
            self.viol.push((sig, detail.into()));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(s());
        }
    }
    pub fn has_violation(&self) -> bool {
        !self.viol.is_empty()
    }
}

pub struct Space {
    pub name: String,
    pub len: u64,
    /// Largest number of cases one process runs (0: no limit).
    pub chunk: u64,
    pub run: Box<dyn Fn(u64, &mut Rec)>,
    pub show: Box<dyn Fn(u64) -> String>,
}

impl Space {
    pub fn new(
        name: &str,
        len: u64,
        run: impl Fn(u64, &mut Rec) + 'static,
        show: impl Fn(u64) -> String + 'static,
    ) -> Space {
        Space {
            name: name.to_string(),
            len,
            chunk: 0,
            run: Box::new(run),
            show: Box::new(show),
        }
    }
    pub fn chunked(mut self, n: u64) -> Space {
        self.chunk = n;
        self
    }
}

pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    pub rule: String,
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub spaces: Vec<Space>,
}

/// Mixed-radix digits of a case number.
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, n: usize) -> usize {
        let d = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        d
    }
}

/// Number of sequences over `k` symbols of length `lo..=hi`.
pub fn seq_count(k: u64, lo: u32, hi: u32) -> u64 {
    (lo..=hi).map(|l| k.pow(l)).sum()
}
/// Decodes the `i`th sequence, shortest first.
pub fn seq_decode(mut i: u64, k: u64, lo: u32, hi: u32) -> Vec<usize> {
    for l in lo..=hi {
        let n = k.pow(l);
        if i < n {
            let mut v = Vec::with_capacity(l as usize);
            for _ in 0..l {
                v.push((i % k) as usize);
                i /= k;
            }
            v.reverse();
            return v;
        }
        i -= n;
    }
    panic!("sequence number out of range")
}

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

struct Known {
    prop: String,
    matching: String,
    what: String,
}

fn load_known(prop: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(verif_root().join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            let Ok(j) = serde_json::from_str::<Value>(l) else {
                continue;
            };
            if let (Some(p), Some(m), Some(w)) = (
                j["property"].as_str(),
                j["match"].as_str(),
                j["what"].as_str(),
            ) {
                if p == prop {
                    v.push(Known {
                        prop: p.into(),
                        matching: m.into(),
                        what: w.into(),
                    });
                }
            }
        }
    }
    v
}

fn now_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Message and place of the last panic caught on this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|m| m.borrow().clone())
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(last_panic()),
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                *m = format!("{} [{}]", msg.chars().take(600).collect::<String>(), loc);
            }
        });
    }));
}

pub fn workers() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(2, 16)
}

pub type Build = fn(&str, Tier) -> Option<Check>;

/// Entry point of a harness binary: `BIN <property> [replay FILE]`.
pub fn main(build: Build) {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).expect("usage: BIN PROPERTY").clone();
    let tier = now_tier();
    let t0 = Instant::now();
    let Some(check) = build(&prop, tier) else {
        eprintln!("no check for {prop}");
        std::process::exit(2);
    };
    match args.get(2).map(|s| s.as_str()) {
        Some("worker") => worker(check, &args[3..]),
        Some("replay") => replay(check, &args[3]),
        _ => parent(check, tier, t0),
    }
}

fn replay(check: Check, file: &str) {
    install_panic_hook();
    let j: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).expect("json");
    let space = j["space"].as_str().unwrap();
    let idx = j["index"].as_u64().unwrap();
    let s = check
        .spaces
        .iter()
        .find(|s| s.name == space)
        .expect("space");
    println!("case: {}", (s.show)(idx));
    let mut rec = Rec::default();
    run_case(s, idx, &mut rec);
    if rec.viol.is_empty() {
        println!("held");
        std::process::exit(0)
    }
    for (sig, d) in &rec.viol {
        println!("{sig}\n{d}");
    }
    println!("VIOLATION property={} replay={}", check.property, file);
    std::process::exit(1)
}

fn run_case(s: &Space, i: u64, rec: &mut Rec) {
    if let Err(m) = catch(|| (s.run)(i, rec)) {
        rec.violation(format!("panic: {m}"), format!("the code under test panicked: {m}"));
    }
}

fn worker(check: Check, a: &[String]) {
    install_panic_hook();
    let si: usize = a[0].parse().unwrap();
    let (lo, hi): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let out = PathBuf::from(&a[3]);
    let pos = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(out.with_extension("pos"))
        .expect("pos file");
    let s = &check.spaces[si];
    let mut rec = Rec { beat: Some((pos.try_clone().expect("pos file"), Instant::now())), ..Rec::default() };
    let mut viols: Vec<Value> = vec![];
    let mut nviol = 0u64;
    for i in lo..hi {
        pos.write_at(&(i + 1).to_le_bytes(), 0).unwrap();
        run_case(s, i, &mut rec);
        if !rec.viol.is_empty() {
            nviol += 1;
            for (sig, d) in rec.viol.drain(..) {
                if viols.len() < 40 {
                    viols.push(json!({"sig": sig, "detail": d, "space": s.name, "index": i, "case": (s.show)(i)}));
                }
            }
            // Enough evidence: do not grind through a space that fails everywhere.
            if nviol >= 200 {
                break;
            }
        }
    }
    let hs = |h: &HashSet<u64>| {
        let mut v = Vec::with_capacity(h.len() * 8);
        for x in h {
            v.extend_from_slice(&x.to_le_bytes());
        }
        v
    };
    for (n, h) in [("d", &rec.distinct), ("s", &rec.states), ("t", &rec.transitions)] {
        fs::write(out.with_extension(n), hs(h)).expect("write set");
    }
    let j = json!({"evals": rec.evals, "traces": rec.traces, "counters": rec.counters,
        "violations": viols, "samples": rec.samples, "nviol": nviol});
    let tmp = out.with_extension("tmp");
    let mut f = fs::File::create(&tmp).expect("out");
    f.write_all(j.to_string().as_bytes()).unwrap();
    drop(f);
    fs::rename(tmp, out).unwrap();
}

struct Job {
    si: usize,
    lo: u64,
    hi: u64,
}
struct Running {
    child: Child,
    job: Job,
    out: PathBuf,
    last_pos: (u64, Vec<u8>),
    last_change: Instant,
}

fn read_set(p: PathBuf, set: &mut HashSet<u64>) {
    let Ok(mut f) = fs::File::open(&p) else { return };
    let mut b = vec![];
    let _ = f.read_to_end(&mut b);
    for c in b.chunks_exact(8) {
        set.insert(u64::from_le_bytes(c.try_into().unwrap()));
    }
    let _ = fs::remove_file(&p);
}

fn parent(check: Check, tier: Tier, t0: Instant) {
    let n = workers();
    let cap = Duration::from_secs(
        std::env::var("VERIF_CAP")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(match tier {
                Tier::Quick => 600,
                Tier::Thorough => 780,
            }),
    );
    let scratch = PathBuf::from(format!("/dev/shm/mck-{}-{}", check.property, std::process::id()));
    fs::create_dir_all(&scratch).expect("scratch");
    let mut jobs: std::collections::VecDeque<Job> = Default::default();
    for (si, s) in check.spaces.iter().enumerate() {
        let mut per = s.len.div_ceil(n as u64 * 3).max(1);
        if s.chunk > 0 {
            per = per.min(s.chunk);
        }
        let mut lo = 0;
        while lo < s.len {
            let hi = (lo + per).min(s.len);
            jobs.push_back(Job { si, lo, hi });
            lo = hi;
        }
    }
    let exe = std::env::current_exe().expect("exe");
    let mut running: Vec<Running> = vec![];
    let mut seq = 0u64;
    let mut distinct = HashSet::new();
    let mut states = HashSet::new();
    let mut transitions = HashSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evals, mut traces) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<Value> = vec![];
    let mut capped = false;
    let mut engine_error: Option<String> = None;
    let mut crashes = 0;
    let hang = Duration::from_secs(120);
    while !jobs.is_empty() || !running.is_empty() {
        if t0.elapsed() > cap && !capped {
            capped = true;
            jobs.clear();
            for r in &mut running {
                let _ = r.child.kill();
            }
        }
        if viols.len() > 200 {
            jobs.clear();
        }
        while running.len() < n && !jobs.is_empty() {
            let job = jobs.pop_front().unwrap();
            seq += 1;
            let out = scratch.join(format!("{seq}.json"));
            let errf = fs::File::create(scratch.join(format!("{seq}.err"))).expect("err file");
            let child = Command::new(&exe)
                .arg(check.property)
                .arg("worker")
                .arg(job.si.to_string())
                .arg(job.lo.to_string())
                .arg(job.hi.to_string())
                .arg(&out)
                .stdout(Stdio::null())
                .stderr(errf)
                .spawn()
                .expect("spawn worker");
            running.push(Running {
                child,
                job,
                out,
                last_pos: Default::default(),
                last_change: Instant::now(),
            });
        }
        let mut i = 0;
        let mut progressed = false;
        while i < running.len() {
            let r = &mut running[i];
            let pos = fs::read(r.out.with_extension("pos"))
                .ok()
                .filter(|b| b.len() >= 8)
                .map(|b| (u64::from_le_bytes(b[..8].try_into().unwrap()), b[8..].to_vec()))
                .unwrap_or_default();
            if pos != r.last_pos {
                r.last_pos = pos;
                r.last_change = Instant::now();
            }
            let mut hung = false;
            let st = match r.child.try_wait().expect("wait") {
                Some(st) => Some(st),
                None if r.last_change.elapsed() > hang && !capped => {
                    hung = true;
                    let _ = r.child.kill();
                    Some(r.child.wait().expect("wait"))
                }
                None => None,
            };
            let Some(st) = st else {
                i += 1;
                continue;
            };
            progressed = true;
            let r = running.swap_remove(i);
            read_set(r.out.with_extension("d"), &mut distinct);
            read_set(r.out.with_extension("s"), &mut states);
            read_set(r.out.with_extension("t"), &mut transitions);
            let err = fs::read_to_string(r.out.with_extension("err")).unwrap_or_default();
            if st.success() {
                let j: Value = serde_json::from_str(&fs::read_to_string(&r.out).expect("worker output"))
                    .expect("worker json");
                evals += j["evals"].as_u64().unwrap();
                traces += j["traces"].as_u64().unwrap();
                for (k, v) in j["counters"].as_object().unwrap() {
                    *counters.entry(k.clone()).or_default() += v.as_u64().unwrap();
                }
                for s in j["samples"].as_array().unwrap() {
                    if samples.len() < 12 {
                        samples.push(s.as_str().unwrap().to_string());
                    }
                }
                for v in j["violations"].as_array().unwrap() {
                    viols.push(v.clone());
                }
            } else if capped && !hung {
                // stopped by the wall cap
            } else {
                crashes += 1;
                let s = &check.spaces[r.job.si];
                let errtail: String = {
                    let c: Vec<char> = err.chars().collect();
                    c[c.len().saturating_sub(600)..].iter().collect()
                };
                if r.last_pos.0 == 0 {
                    engine_error = Some(format!(
                        "worker for space {} ended with {st} before its first case: {errtail}",
                        s.name
                    ));
                } else {
                    let idx = r.last_pos.0 - 1;
                    let what = if hung {
                        "hang: no progress on this case for 120 s".to_string()
                    } else {
                        format!("abort: the process ended with {st}: {errtail}")
                    };
                    viols.push(json!({"sig": what, "detail": what, "space": s.name, "index": idx,
                        "case": (s.show)(idx)}));
                    if idx + 1 < r.job.hi && crashes < 6 {
                        jobs.push_back(Job {
                            si: r.job.si,
                            lo: idx + 1,
                            hi: r.job.hi,
                        });
                    }
                }
                if crashes >= 6 {
                    jobs.clear();
                }
            }
            for e in ["json", "pos", "err", "tmp"] {
                let _ = fs::remove_file(r.out.with_extension(e));
            }
        }
        if !progressed {
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    if let Some(e) = engine_error {
        eprintln!("engine error: {e}");
        std::process::exit(3);
    }

    // Known findings and verdict.
    let known = load_known(check.property);
    let mut new: Vec<&Value> = vec![];
    let mut hit: BTreeMap<usize, u64> = BTreeMap::new();
    for v in &viols {
        let hay = format!("{} | {}", v["case"].as_str().unwrap_or(""), v["sig"].as_str().unwrap_or(""));
        match known.iter().position(|k| hay.contains(&k.matching)) {
            Some(i) => *hit.entry(i).or_default() += 1,
            None => new.push(v),
        }
    }
    for (i, _) in &hit {
        println!("KNOWN-FINDING: property={} {}", known[*i].prop, known[*i].what);
    }
    new.sort_by_key(|v| (v["case"].as_str().unwrap_or("").len(), v["index"].as_u64().unwrap_or(0)));
    let part = std::env::var("VERIF_PART").unwrap_or_else(|_| "all".into());
    let rdir = verif_root().join("evidence").join("replay");
    fs::create_dir_all(&rdir).expect("replay dir");
    if let Ok(d) = fs::read_dir(&rdir) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{}-{part}-", check.property)) {
                let _ = fs::remove_file(e.path());
            }
        }
    }
    let mut first = None;
    for (i, v) in new.iter().take(10).enumerate() {
        let p = rdir.join(format!("{}-{part}-{}.json", check.property, i));
        let mut o: Map<String, Value> = v.as_object().unwrap().clone();
        o.insert("property".into(), json!(check.property));
        o.insert("part".into(), json!(part));
        o.insert("tier".into(), json!(if tier == Tier::Quick { "quick" } else { "thorough" }));
        o.insert(
            "replay_with".into(),
            json!(format!("cd /verif && ./check {} replay {}", check.property, p.display())),
        );
        fs::write(&p, serde_json::to_string_pretty(&Value::Object(o)).unwrap()).expect("replay");
        if first.is_none() {
            first = Some(p);
        }
    }

    let total: u64 = check.spaces.iter().map(|s| s.len).sum();
    let spaces: Map<String, Value> = check.spaces.iter().map(|s| (s.name.clone(), json!(s.len))).collect();
    let complete = !capped && viols.is_empty();
    let mut cov = json!({
        "evaluations": evals,
        "distinct_nontrivial": distinct.len(),
        "rule": check.rule,
        "samples": samples,
        "exhaustive": complete,
        "bounds": check.bounds,
        "space_cases": spaces,
        "cases_total": total,
        "counters": counters,
        "wall_cap_hit": capped,
    });
    if check.level == "model_checking" {
        cov["states"] = json!(states.len());
        cov["transitions"] = json!(transitions.len());
        cov["traces_validated_against_impl"] = json!(traces);
    }
    let ev = json!({
        "property": check.property,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": new.len(),
    });
    let parts = verif_root().join("evidence").join("parts");
    fs::create_dir_all(&parts).expect("parts dir");
    fs::write(
        parts.join(format!("{}.{part}.json", check.property)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("evidence");
    println!(
        "{}: {} cases in {} spaces, {} evaluations, {} distinct, {} states, {} transitions, {} traces, {:.1}s{}",
        check.property,
        total,
        check.spaces.len(),
        evals,
        distinct.len(),
        states.len(),
        transitions.len(),
        traces,
        t0.elapsed().as_secs_f64(),
        if capped { " (wall cap hit: not exhaustive)" } else { "" }
    );
    if let Some(p) = first {
        for v in new.iter().take(5) {
            println!(
                "  case {} #{}: {}\n    {}",
                v["space"].as_str().unwrap_or(""),
                v["index"],
                v["case"].as_str().unwrap_or(""),
                v["detail"].as_str().unwrap_or("").replace('\n', "\n    ")
            );
        }
        println!("VIOLATION property={} replay={}", check.property, p.display());
        std::process::exit(1);
    }
    if evals == 0 && !capped {
        eprintln!("engine error: nothing was evaluated");
        std::process::exit(3);
    }
}
