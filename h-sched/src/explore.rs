//! Preemption-bounded depth-first exploration: one forked process per execution, so the
//! process-wide state of the library is fresh each time.
use mck::driver::*;
use mcsched::Report;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicI32, Ordering};

extern "C" {
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}

static OUT: AtomicI32 = AtomicI32::new(-1);

fn send(v: &Value) -> ! {
    let s = v.to_string();
    let b = s.as_bytes();
    let mut o = 0;
    unsafe {
        while o < b.len() {
            let n = write(OUT.load(Ordering::SeqCst), b[o..].as_ptr().cast(), b.len() - o);
            if n <= 0 {
                _exit(9)
            }
            o += n as usize;
        }
        _exit(0)
    }
}

/// Runs `f` in a forked process and returns what it sends.
pub fn forked(f: impl FnOnce() -> Value) -> Result<Value, String> {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(pipe(p.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            close(p[0]);
            OUT.store(p[1], Ordering::SeqCst);
            alarm(20);
            let v = match catch(f) {
                Ok(v) => v,
                Err(e) => json!({ "panic": e }),
            };
            send(&v)
        }
        close(p[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = read(p[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(p[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        match serde_json::from_slice(&out) {
            Ok(v) if st == 0 => Ok(v),
            _ if st & 0x7f == 14 => Err("hang: no end within 20 s".into()),
            _ => Err(format!("the process ended with status {st}")),
        }
    }
}

fn trace_json(r: &Report) -> Value {
    json!({
        "trace": r.trace.iter().map(|d| json!([d.enabled, d.chosen, d.running_enabled, d.state, d.thread])).collect::<Vec<_>>(),
        "log": r.log,
    })
}

fn on_abort(what: &str, r: &Report) {
    let mut v = trace_json(r);
    v["abort"] = json!(what);
    send(&v)
}

/// One scenario: `setup` runs first (outside the model) and gives the threads' bodies; `judge`
/// runs after all of them ended and returns an outcome string or what is wrong.
pub type Setup = Box<dyn FnOnce() -> (Vec<Box<dyn FnOnce() + Send>>, Judge)>;
pub type Judge = Box<dyn FnOnce() -> Result<String, String>>;

/// Explores every schedule with at most `bound` preemptions, up to `cap` executions.
pub fn explore(name: &str, bound: usize, cap: usize, scen: &dyn Fn() -> Setup, rec: &mut Rec) {
    let mut work: Vec<Vec<u8>> = vec![vec![]];
    let mut n = 0usize;
    let mut outcomes = std::collections::HashSet::new();
    while let Some(prefix) = work.pop() {
        n += 1;
        if n > cap {
            rec.count("scenarios stopped at the execution cap");
            break;
        }
        let plen = prefix.len();
        let p2 = prefix.clone();
        let setup = scen();
        let v = forked(move || {
            let (bodies, judge) = setup();
            let r = mcsched::run(p2, bodies, on_abort);
            let mut v = trace_json(&r);
            match judge() {
                Ok(o) => v["outcome"] = json!(o),
                Err(e) => v["wrong"] = json!(e),
            }
            v
        });
        rec.eval();
        rec.trace();
        let v = match v {
            Ok(v) => v,
            Err(e) => {
                rec.violation(e.clone(), format!("{name}: {e} under the schedule {prefix:?}"));
                return;
            }
        };
        let log = || v["log"].as_array().map(|a| a.iter().map(|l| l.as_str().unwrap_or("")).collect::<Vec<_>>().join("; ")).unwrap_or_default();
        for k in ["abort", "wrong", "panic"] {
            if let Some(e) = v[k].as_str() {
                if e.starts_with("divergence") {
                    // The code does not only depend on the schedule: it cannot be explored.
                    rec.count("scenarios not explored: not deterministic");
                    return;
                }
                rec.violation(
                    format!("{k}: {}", e.chars().take(120).collect::<String>()),
                    format!("{name}: {e}\nschedule {prefix:?}\n{}", log()),
                );
                return;
            }
        }
        rec.distinct(&format!("{name}{}", v["log"]));
        outcomes.insert(v["outcome"].as_str().unwrap_or("").to_string());
        let tr = v["trace"].as_array().expect("trace");
        let mut cost = 0;
        let mut prev: Option<String> = None;
        for (i, d) in tr.iter().enumerate() {
            let (enabled, chosen) = (d[0].as_u64().unwrap() as usize, d[1].as_u64().unwrap() as usize);
            let running = d[2].as_bool().unwrap();
            let state = format!("{name}:{}", d[3].as_str().unwrap());
            if let Some(p) = prev {
                rec.step(&p, "", &state);
            }
            prev = Some(format!("{state}>{}", d[4]));
            rec.state(&state);
            if i >= plen {
                let c = cost + running as usize;
                if c <= bound {
                    for alt in (chosen + 1..enabled).rev() {
                        let mut q: Vec<u8> = tr[..i].iter().map(|d| d[1].as_u64().unwrap() as u8).collect();
                        q.push(alt as u8);
                        work.push(q);
                    }
                }
            }
            cost += (running && chosen > 0) as usize;
        }
    }
    rec.count_n("executions", n as u64);
    rec.count_n("distinct outcomes", outcomes.len() as u64);
    rec.sample(|| format!("{name}: {n} schedules, outcomes {:?}", outcomes.iter().take(4).collect::<Vec<_>>()));
}
