//! A node process that runs the browser build of stylist against a small DOM.
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use serde_json::{json, Value};

pub struct Node {
    child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn() -> Node {
    let here = PathBuf::from(env!("CARGO_MANIFEST_DIR"));
    let exe = std::env::current_exe().expect("exe");
    let wasm = exe.parent().unwrap().parent().unwrap().join("guest/wasm32-unknown-unknown/debug/guest.wasm");
    let mut child = Command::new("node")
        .arg("--max-old-space-size=1500")
        .arg(here.join("js/run.js"))
        .arg(wasm)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("node");
    let i = child.stdin.take().unwrap();
    let o = BufReader::new(child.stdout.take().unwrap());
    Node { child, i, o }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

/// One request; an error of the harness itself ends the process.
pub fn ask(q: &Value) -> Value {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.get_or_insert_with(spawn);
        let mut s = q.to_string();
        s.push('\n');
        let mut l = String::new();
        let ok = n.i.write_all(s.as_bytes()).is_ok() && n.i.flush().is_ok() && n.o.read_line(&mut l).map(|k| k > 0).unwrap_or(false);
        if !ok {
            eprintln!("harness: the browser process ended at {q}");
            std::process::exit(4);
        }
        let v: Value = serde_json::from_str(&l).expect("answer");
        if let Some(e) = v["harness"].as_str() {
            eprintln!("harness: {e}\nat {q}");
            std::process::exit(4);
        }
        v
    })
}

pub fn page_with(o: Value) {
    ask(&json!({ "new": o }));
}

pub type Fail = (String, String);
pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err((sig.into(), detail.into()))
}

fn bad(v: &Value, what: &str) -> Result<(), Fail> {
    if let Some(p) = v["panic"].as_str() {
        return fail(format!("panic in the browser: {}", p.lines().next().unwrap_or("")), format!("{what}: {p}"));
    }
    if let Some(p) = v["uncaught"].as_str() {
        return fail(format!("uncaught exception: {p}"), format!("{what}: {p} {}", v["stack"]));
    }
    if v.get("dead").is_some() {
        return fail("dead", "command after a crash");
    }
    Ok(())
}

pub fn cmd(c: Value) -> Result<Value, Fail> {
    let r = ask(&json!({ "cmd": c }));
    bad(&r, &c.to_string())?;
    Ok(r)
}
pub fn cmd_fault(c: &Value, fault: Value) -> Result<Value, Fail> {
    let r = ask(&json!({"cmd": c, "fault": fault}));
    bad(&r, &format!("{c} with fault {fault}"))?;
    Ok(r)
}
/// A command followed by all queued microtasks.
pub fn cmd_settle(c: Value) -> Result<Value, Fail> {
    let r = ask(&json!({"cmd": c, "drain": true}));
    bad(&r, &c.to_string())?;
    Ok(r)
}
pub fn drain() -> Result<(), Fail> {
    bad(&ask(&json!({"drain": 1})), "running microtasks")
}
/// Runs some microtasks; how many are left.
pub fn tasks(n: usize) -> Result<usize, Fail> {
    let r = ask(&json!({ "tasks": n }));
    bad(&r, "running microtasks")?;
    Ok(r["left"].as_u64().unwrap() as usize)
}
pub fn resize(w: u32, settle: bool) -> Result<(), Fail> {
    bad(&ask(&json!({"resize": w, "drain": settle})), "viewport change")
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Child_ {
    pub tag: String,
    pub style: Option<String>,
    pub text: String,
}
pub struct Snap {
    pub head: Vec<Child_>,
    pub containers: Vec<Vec<Child_>>,
    pub root: String,
    pub listeners: u64,
    pub live: i64,
    pub console: Vec<String>,
}

fn list(v: &Value) -> Vec<Child_> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| Child_ {
            tag: c["tag"].as_str().map(|s| s.to_string()).unwrap_or_else(|| format!("#{}", c["other"])),
            style: c["style"].as_str().map(|s| s.to_string()),
            text: c["text"].as_str().unwrap_or("").to_string(),
        })
        .collect()
}

pub fn snap() -> Snap {
    let v = ask(&json!({"snap": 1}));
    Snap {
        head: list(&v["head"]),
        containers: v["containers"].as_array().unwrap().iter().map(list).collect(),
        root: v["root"].as_str().unwrap().to_string(),
        listeners: v["listeners"].as_u64().unwrap(),
        live: v["live"].as_i64().unwrap(),
        console: v["console"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect(),
    }
}
