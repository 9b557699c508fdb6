//! Compiles and runs generated programs: one source file with a function per unit, compiled by the
//! real compiler against the stylist library of this build.  Errors of the compiler are mapped to
//! units by their line; units that are refused are taken out and the rest is compiled again.
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Unit {
    /// An expression of type Vec<String>, on one line.
    pub body: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Vec<String>),
    Panic(String),
    Refused(String),
}

const PRELUDE: &str = include_str!("prelude.rs.txt");

fn target_dir() -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().parent().unwrap().to_path_buf()
}

struct Tmp(PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn tmp() -> Tmp {
    let p = PathBuf::from(format!("/dev/shm/mck-prog-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).expect("scratch directory");
    Tmp(p)
}

fn run_timed(c: &mut Command, secs: u64) -> Result<(Option<i32>, String, String), String> {
    let mut ch = c
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let to = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = o.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let te = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = e.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let mut nap = 1;
    let rc = loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break s.code(),
            None if t0.elapsed() > Duration::from_secs(secs) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Err(format!("no end after {secs} s"));
            }
            None => std::thread::sleep(Duration::from_millis(nap)),
        }
        nap = (nap * 2).min(20);
    };
    Ok((rc, to.join().unwrap(), te.join().unwrap()))
}

fn outermost<'a>(mut sp: &'a Value) -> &'a Value {
    while sp["expansion"].is_object() {
        sp = &sp["expansion"]["span"];
    }
    sp
}

/// Result of a compilation: errors by line of the file.
pub struct Diag {
    pub by_line: BTreeMap<usize, Vec<String>>,
    pub other: Vec<String>,
    pub ok: bool,
}

/// The compiler's command line for the source in `dir`.
fn rustc_command(src: &str, dir: &std::path::Path) -> Command {
    let lib = std::fs::read_to_string(target_dir().join("extern.txt")).expect("extern.txt");
    let f = dir.join("p.rs");
    std::fs::write(&f, src).unwrap();
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-name", "p", "--crate-type", "bin", "--error-format=json", "-Awarnings"])
        .args(["-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=1"])
        .args(["--check-cfg", "cfg(any())"])
        .arg("-L")
        .arg(format!("dependency={}", target_dir().join("debug/deps").display()))
        .arg("--extern")
        .arg(format!("stylist={lib}"))
        .arg(&f)
        .env_remove("RUSTFLAGS")
        .env_remove("RUSTC_WRAPPER");
    c
}

/// The units after the expansion of their macros, empty if the compiler does not show it.
pub fn expanded(units: &[Unit]) -> String {
    let dir = tmp();
    let (src, _) = source(&units.iter().enumerate().collect::<Vec<_>>());
    let mut c = rustc_command(&src, &dir.0);
    c.arg("-Zunpretty=expanded").env("RUSTC_BOOTSTRAP", "1");
    let out = run_timed(&mut c, 100).map(|r| r.1).unwrap_or_default();
    out.find("fn u0()").map(|i| out[i..].to_string()).unwrap_or_default()
}

/// The compiler only, without linking when `emit` is metadata.
pub fn rustc(src: &str, emit: &str, dir: &std::path::Path) -> Diag {
    let mut c = rustc_command(src, dir);
    c.args(["--emit", emit]).arg("-o").arg(dir.join(if emit == "link" { "p" } else { "p.rmeta" }));
    let (rc, _, err) = run_timed(&mut c, 100).unwrap_or_else(|e| panic!("compiler: {e}"));
    let mut d = Diag { by_line: BTreeMap::new(), other: vec![], ok: rc == Some(0) };
    for l in err.lines() {
        let Ok(j) = serde_json::from_str::<Value>(l) else {
            d.other.push(l.to_string());
            continue;
        };
        if !j["level"].as_str().unwrap_or("").starts_with("error") {
            continue;
        }
        let msg = j["message"].as_str().unwrap_or("").to_string();
        let mut placed = false;
        for sp in j["spans"].as_array().into_iter().flatten() {
            if sp["is_primary"].as_bool() != Some(true) {
                continue;
            }
            let o = outermost(sp);
            if o["file_name"].as_str().map(|n| n.ends_with("p.rs")) == Some(true) {
                d.by_line.entry(o["line_start"].as_u64().unwrap() as usize).or_default().push(msg.clone());
                placed = true;
            }
        }
        if !placed {
            d.other.push(msg);
        }
    }
    d
}

pub fn source(units: &[(usize, &Unit)]) -> (String, Vec<usize>) {
    let mut s = String::from(PRELUDE);
    let mut lines = vec![];
    let mut line = s.matches('\n').count() + 1;
    for (i, u) in units {
        debug_assert!(!u.body.contains('\n'));
        s.push_str(&format!("fn u{i}() -> Vec<String> {{ {} }}\n", u.body));
        lines.push(line);
        line += 1;
    }
    s.push_str("static UNITS: &[(usize, fn() -> Vec<String>)] = &[");
    for (i, _) in units {
        s.push_str(&format!("({i}, u{i}),"));
    }
    s.push_str("];\n");
    (s, lines)
}

pub fn run(units: &[Unit]) -> Vec<Out> {
    let dir = tmp();
    let mut out: Vec<Option<Out>> = vec![None; units.len()];
    for round in 0.. {
        let left: Vec<(usize, &Unit)> = units.iter().enumerate().filter(|(i, _)| out[*i].is_none()).collect();
        if left.is_empty() {
            break;
        }
        let (src, lines) = source(&left);
        let d = rustc(&src, "link", &dir.0);
        if d.ok {
            let (rc, o, e) = run_timed(&mut Command::new(dir.0.join("p")), 60).unwrap_or_else(|e| (None, String::new(), e));
            for l in o.lines() {
                let Ok(j) = serde_json::from_str::<Value>(l) else { continue };
                let i = j[0].as_u64().unwrap() as usize;
                out[i] = Some(match &j[1] {
                    Value::Array(a) => Out::Ok(a.iter().map(|m| m.as_str().unwrap_or("").to_string()).collect()),
                    m => Out::Panic(m.as_str().unwrap_or("?").to_string()),
                });
            }
            if rc != Some(0) {
                // The first unit without a result took the program down.
                let i = left.iter().map(|l| l.0).find(|i| out[*i].is_none());
                match i {
                    Some(i) => out[i] = Some(Out::Panic(format!("program ended with {rc:?}: {}", e.lines().last().unwrap_or("")))),
                    None => panic!("program ended with {rc:?}: {e}"),
                }
                continue;
            }
            if left.iter().any(|(i, _)| out[*i].is_none()) {
                panic!("program printed no result for some unit: {e}");
            }
            break;
        }
        let mut any = false;
        for ((i, _), line) in left.iter().zip(&lines) {
            if let Some(m) = d.by_line.get(line) {
                out[*i] = Some(Out::Refused(m.join(" | ")));
                any = true;
            }
        }
        if !any || round > 40 {
            panic!("compilation failed outside the units: {:?} {:?}", d.by_line, d.other);
        }
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}

/// Lines with errors when the units are only checked; `None` when all is accepted.
pub fn refused(units: &[Unit]) -> Vec<Option<String>> {
    let dir = tmp();
    let left: Vec<(usize, &Unit)> = units.iter().enumerate().collect();
    let (src, lines) = source(&left);
    let d = rustc(&src, "metadata", &dir.0);
    if !d.ok && d.by_line.is_empty() {
        panic!("compilation failed outside the units: {:?}", d.other);
    }
    lines.iter().map(|l| d.by_line.get(l).map(|m| m.join(" | "))).collect()
}
