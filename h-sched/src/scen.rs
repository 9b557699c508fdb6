//! C07, C10 and C14 under every schedule within the preemption bound.
use crate::explore::*;
use mck::driver::*;
use serde_json::json;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use stylist::ast::Sheet;
use stylist::manager::{render_static, StyleManager};
use stylist::{GlobalStyle, Style, StyleSource};

/// Results of the threads, in the order each thread produced them.
type Out = Arc<Mutex<Vec<Vec<String>>>>;

fn out(n: usize) -> Out {
    Arc::new(Mutex::new(vec![vec![]; n]))
}

fn body(o: &Out, t: usize, f: impl FnOnce(&mut Vec<String>) + Send + 'static) -> Box<dyn FnOnce() + Send> {
    let o = o.clone();
    Box::new(move || {
        let mut v = vec![];
        let r = catch(|| f(&mut v));
        if let Err(p) = r {
            v.push(format!("PANIC {p}"));
        }
        o.lock().unwrap_or_else(|e| e.into_inner())[t] = v;
    })
}

fn no_panic(r: &[Vec<String>]) -> Result<(), String> {
    match r.iter().flatten().find(|s| s.starts_with("PANIC")) {
        Some(p) => Err(format!("a thread panicked: {p}")),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- C07

const TEXTS: &[&str] = &[
    "a: b;",
    "a: b; ",
    "a: c;",
    ".x { a: b; }",
    "a: b; }",
    "",
    "{",
    "a: b",
    "@media x { a: b; }",
    "@media x { a: b;",
    "A: b;",
    "a: \"x;",
    "a: b c;",
    "a: bc;",
    ".x .y { a: b; }",
    ".x.y { a: b; }",
];

fn parse(i: usize) -> String {
    // The two public ways that parse text.
    let s = TEXTS[i];
    let a = match s.parse::<Sheet>() {
        Ok(m) => format!("ok {m:?}"),
        Err(e) => format!("err {e}"),
    };
    let b = match StyleSource::try_from(s) {
        Ok(m) => format!("{m:?}").len().to_string(),
        Err(e) => format!("err {e}"),
    };
    format!("{a} / {b}")
}

/// The result of parsing each text in a process that parses nothing else.
fn fresh() -> Rc<Vec<String>> {
    Rc::new(
        (0..TEXTS.len())
            .map(|i| match forked(|| json!({ "r": parse(i) })) {
                Ok(v) if v["r"].is_string() => v["r"].as_str().unwrap().to_string(),
                Ok(v) => format!("PANIC {v}"),
                Err(e) => format!("FAILED {e}"),
            })
            .collect(),
    )
}

struct Lazily(std::cell::RefCell<Option<Rc<Vec<String>>>>);
impl Lazily {
    fn get(&self) -> Rc<Vec<String>> {
        self.0.borrow_mut().get_or_insert_with(fresh).clone()
    }
}

fn parse_scenario(plan: Vec<Vec<usize>>, warm: Vec<usize>, want: Rc<Vec<String>>) -> Setup {
    Box::new(move || {
        for i in &warm {
            parse(*i);
        }
        let o = out(plan.len());
        let bodies = plan
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let ops = ops.clone();
                body(&o, t, move |v| {
                    for i in ops {
                        v.push(parse(i));
                    }
                })
            })
            .collect();
        let want = want.to_vec();
        let judge: Judge = Box::new(move || {
            let r = o.lock().unwrap().clone();
            no_panic(&r)?;
            for (t, ops) in plan.iter().enumerate() {
                for (k, i) in ops.iter().enumerate() {
                    if r[t][k] != want[*i] {
                        return Err(format!("thread {t} parsed {:?} and got\n{}\ninstead of\n{}", TEXTS[*i], r[t][k], want[*i]));
                    }
                }
            }
            for i in 0..TEXTS.len() {
                let g = parse(i);
                if g != want[i] {
                    return Err(format!("afterwards {:?} parses to\n{g}\ninstead of\n{}", TEXTS[i], want[i]));
                }
            }
            Ok("as fresh".into())
        });
        (bodies, judge)
    })
}

fn head(s: &str) -> String {
    if s.len() > 80 {
        format!("{}.. ({} bytes)", s.chars().take(40).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}

/// Pairs of texts that differ in one place.
fn twins(thorough: bool) -> Vec<(String, String)> {
    let bases = ["a: \"b c\";", ".x  .y { a: b c }", "@media (a: b) { p: q; }", "k: url( 'a' ) /*c d*/ e;", "[a='B'] x, & { É: \\  ; }"];
    let edits = [" ", "\n", "\t", ";", "A", "b", "\\", "/**/", "é", "\0", "\"", "}"];
    let mut v = vec![];
    for b in &bases[..if thorough { 5 } else { 3 }] {
        let at: Vec<usize> = b.char_indices().map(|m| m.0).chain([b.len()]).collect();
        for (k, i) in at.iter().enumerate() {
            for e in edits {
                v.push((b.to_string(), format!("{}{e}{}", &b[..*i], &b[*i..])));
                if let (true, Some(j)) = (thorough || e == "A", at.get(k + 1)) {
                    v.push((b.to_string(), format!("{}{e}{}", &b[..*i], &b[*j..])));
                }
            }
            if let Some(j) = at.get(k + 1) {
                v.push((b.to_string(), format!("{}{}", &b[..*i], &b[*j..])));
                v.push((b.to_string(), format!("{}{}{}", &b[..*i], b[*i..*j].to_uppercase(), &b[*j..])));
            }
        }
    }
    // Long ones that differ near the start, in the middle or near the end.
    for n in [31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4096, 70_000] {
        let long: String = (0..n).map(|k| char::from(b'a' + (k % 25) as u8)).collect();
        for at in [0, 1, n / 2, n - 2, n - 1] {
            let other = format!("{}z{}", &long[..at], &long[at + 1..]);
            v.push((format!("k: {long};"), format!("k: {other};")));
            v.push((format!(".{long} {{ k: v; }}"), format!(".{other} {{ k: v; }}")));
        }
    }
    v.retain(|(a, b)| a != b);
    v
}

pub fn c07(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let want = Rc::new(Lazily(Default::default()));
    let k = TEXTS.len() as u64;
    let seq_hi = if t { 4 } else { 3 };
    // Threads over four texts: a valid one, its near twin, an invalid one, another valid one.
    let pool = [0usize, 4, 7, 3];
    let pairs: Vec<Vec<Vec<usize>>> = {
        let mut v = vec![];
        let ops: Vec<Vec<usize>> = (0..pool.len()).flat_map(|a| (0..pool.len()).map(move |b| vec![pool[a], pool[b]])).collect();
        for a in &ops {
            for b in &ops {
                if a <= b {
                    v.push(vec![a.clone(), b.clone()]);
                }
            }
        }
        v
    };
    let triples: Vec<Vec<Vec<usize>>> = {
        let mut v = vec![];
        for a in pool {
            for b in pool {
                for c in pool {
                    if a <= b && b <= c {
                        v.push(vec![vec![a], vec![b], vec![c]]);
                    }
                }
            }
        }
        v
    };
    let (w1, w2, w3) = (want.clone(), want.clone(), want.clone());
    let (p1, p2) = (Rc::new(pairs), Rc::new(triples));
    let (q1, q2) = (p1.clone(), p2.clone());
    let b2 = if t { 99 } else { 3 };
    let b3 = if t { 4 } else { 2 };
    Check {
        property: "C07",
        level: "model_checking",
        rule: "every sequence of parses of the texts up to the bound, and every schedule with at most the stated number of preemptions of every combination of parses on two and three threads, each in a fresh process, compared with the result of parsing the text alone; distinct by sequence or schedule".into(),
        bounds: format!("{k} texts, sequences <= {seq_hi}; {} pairs of texts with one difference; 2 threads x 2 parses, preemptions <= {b2}; 3 threads x 1 parse, preemptions <= {b3}", twins(t).len()),
        assumptions: vec![
            "scheduling points are the operations on std::sync and once_cell::sync objects that are not on the thread's own stack; the library has no unsafe code, so other shared accesses do not exist".into(),
            "sequentially consistent memory".into(),
        ],
        spaces: vec![
            Space::new(
                "sequences on one thread",
                seq_count(k, 1, seq_hi),
                move |i, rec| {
                    let s = seq_decode(i, k, 1, seq_hi);
                    let want = w1.get();
                    rec.eval();
                    rec.trace();
                    let s2 = s.clone();
                    let got = forked(move || json!({ "r": s2.iter().map(|i| parse(*i)).collect::<Vec<_>>() }));
                    let texts: Vec<&str> = s.iter().map(|i| TEXTS[*i]).collect();
                    let mut st = String::new();
                    match got {
                        Err(e) => rec.violation(e.clone(), format!("parsing {texts:?}: {e}")),
                        Ok(v) => {
                            for (n, i) in s.iter().enumerate() {
                                let g = v["r"][n].as_str().unwrap_or("PANIC");
                                if g != want[*i] {
                                    rec.violation("history changes a result", format!("parsing {texts:?} in turn: number {n} gives\n{g}\ninstead of\n{}\n{v}", want[*i]));
                                }
                                let mut set: Vec<usize> = s[..=n].to_vec();
                                set.sort();
                                set.dedup();
                                let to = format!("{set:?}");
                                rec.step(&st, TEXTS[*i], &to);
                                st = to;
                            }
                        }
                    }
                    rec.distinct(&format!("{texts:?}"));
                },
                move |i| format!("{:?}", seq_decode(i, k, 1, seq_hi).iter().map(|i| TEXTS[*i]).collect::<Vec<_>>()),
            ),
            Space::new(
                "near twins, either first",
                twins(t).len() as u64 * 2,
                {
                    let twins = twins(t);
                    move |i, rec| {
                        let (a, b) = &twins[i as usize / 2];
                        let (a, b) = if i % 2 == 0 { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
                        let show = |s: &str| match s.parse::<Sheet>() {
                            Ok(m) => format!("ok {m:?}"),
                            Err(e) => format!("err {e}"),
                        };
                        rec.eval();
                        rec.trace();
                        let key = format!("{:?}, {:?}", head(&a), head(&b));
                        rec.distinct(&format!("{a} | {b}"));
                        let alone = |s: &str| forked(|| json!({ "r": [show(s)] }));
                        match (alone(&a), alone(&b), forked(|| json!({ "r": [show(&a), show(&b), show(&a)] }))) {
                            (Ok(x), Ok(y), Ok(z)) => {
                                if z["r"] != json!([x["r"][0], y["r"][0], x["r"][0]]) {
                                    rec.violation("history changes a result", format!("parsing {key} and the first again gives\n{z}\ninstead of\n{x}\nand\n{y}"))
                                }
                            }
                            e => rec.violation("a parse fails", format!("{key}: {e:?}")),
                        }
                        rec.step(&key, &key, &key);
                    }
                },
                {
                    let twins = twins(t);
                    move |i| format!("{:?}", twins[i as usize / 2])
                },
            )
            .chunked(100),
            Space::new(
                "many texts in one process, twice",
                24,
                |i, rec| {
                    // Enough different texts for any bound on the cache, in rotated orders.
                    let n = 60 * (1 + i as usize % 8);
                    let text = |k: usize| -> String {
                        match k % 5 {
                            0 => format!("a{k}: b;"),
                            1 => format!(".x{k} {{ a: b{k}; }}"),
                            2 => format!("@media (a: {k}) {{ c: d; }}"),
                            3 => format!("a: b{k}; }}"),
                            _ => format!("a: {}; ", "z".repeat(k)),
                        }
                    };
                    let show = |k: usize| match text(k).parse::<Sheet>() {
                        Ok(m) => format!("ok {m:?}"),
                        Err(e) => format!("err {e}"),
                    };
                    rec.eval();
                    rec.trace();
                    let got = forked(move || {
                        let a: Vec<String> = (0..n).map(show).collect();
                        let step = [1, 7, 11][i as usize / 8 % 3];
                        for r in 0..2 {
                            for k in 0..n {
                                let k = (k * step + r * 13) % n;
                                if show(k) != a[k] {
                                    return json!({ "wrong": format!("{:?} first gave {} and later {}", text(k), a[k], show(k)) });
                                }
                            }
                        }
                        json!({ "all": a })
                    });
                    match got {
                        Err(e) => rec.violation(e.clone(), e),
                        Ok(v) => {
                            if let Some(e) = v["wrong"].as_str().or(v["panic"].as_str()) {
                                rec.violation("a later parse differs", e);
                                return;
                            }
                            // Each text belongs to its own sheet.
                            for k in 0..n {
                                let a = v["all"][k].as_str().unwrap_or("");
                                let mark = match k % 5 {
                                    0 => format!("\"a{k}\""),
                                    1 => format!("\"b{k}\""),
                                    2 => format!("(a: {k})"),
                                    3 => "err".to_string(),
                                    _ => format!("\"{}\"", "z".repeat(k)),
                                };
                                if !a.contains(&mark) {
                                    rec.violation("the sheet of another text", format!("{:?} gave {a}", text(k)));
                                }
                            }
                            rec.distinct(&format!("many {i}"));
                        }
                    }
                },
                |i| format!("many texts {i}"),
            ),
            Space::new(
                "two threads",
                p1.len() as u64,
                move |i, rec| {
                    let plan = p1[i as usize].clone();
                    let want = w2.get();
                    explore(&format!("parse {plan:?}"), b2, 60_000, &|| parse_scenario(plan.clone(), vec![], want.clone()), rec)
                },
                move |i| format!("{:?}", q1[i as usize]),
            )
            .chunked(1),
            Space::new(
                "three threads",
                p2.len() as u64 * 2,
                move |i, rec| {
                    let plan = p2[i as usize / 2].clone();
                    let want = w3.get();
                    let warm = if i % 2 == 0 { vec![] } else { vec![plan[0][0]] };
                    explore(&format!("parse {plan:?} after {warm:?}"), b3, 60_000, &|| parse_scenario(plan.clone(), warm.clone(), want.clone()), rec)
                },
                move |i| format!("{:?}", q2[i as usize / 2]),
            )
            .chunked(1),
        ],
    }
}

// ---------------------------------------------------------------- C10

fn names(threads: usize, per: usize, warm: usize) -> Setup {
    Box::new(move || {
        let make = |k: usize| -> String {
            let mgr = StyleManager::builder().build().expect("manager");
            let sheet: Sheet = Sheet::new();
            if k % 2 == 0 {
                Style::new_with_manager(sheet, mgr).expect("style").get_class_name().to_string()
            } else {
                GlobalStyle::new_with_manager(sheet, mgr).expect("style").id().to_string()
            }
        };
        let before: Vec<String> = (0..warm).map(make).collect();
        let o = out(threads);
        let bodies = (0..threads)
            .map(|t| {
                body(&o, t, move |v| {
                    for k in 0..per {
                        v.push(make(k + t));
                    }
                })
            })
            .collect();
        let judge: Judge = Box::new(move || {
            let r = o.lock().unwrap().clone();
            no_panic(&r)?;
            let mut all: Vec<String> = before.clone();
            all.extend(r.iter().flatten().cloned());
            all.push(make(0));
            let mut seen: HashMap<String, usize> = HashMap::new();
            for (n, id) in all.iter().enumerate() {
                let e = id.strip_prefix("stylist-global-").or(id.strip_prefix("stylist-"));
                let ok = e.is_some_and(|e| !e.is_empty() && e.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_'));
                if !ok {
                    return Err(format!("malformed identifier {id:?}"));
                }
                // Also without the kind: the drawn part itself is unique.
                if let Some(m) = seen.insert(e.unwrap().to_string(), n) {
                    return Err(format!("registrations {m} and {n} share {id:?}: {all:?}"));
                }
            }
            Ok(format!("{r:?}"))
        });
        (bodies, judge)
    })
}

pub fn c10(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let plans: Vec<(usize, usize, usize, usize)> = if t {
        vec![(2, 1, 0, 99), (2, 2, 0, 99), (2, 3, 0, 99), (3, 1, 0, 99), (3, 2, 0, 3), (2, 2, 1, 99), (3, 1, 2, 99), (4, 1, 0, 3)]
    } else {
        vec![(2, 1, 0, 99), (2, 2, 0, 99), (3, 1, 0, 3), (3, 2, 0, 2), (2, 2, 1, 99), (3, 1, 2, 3)]
    };
    let p2 = plans.clone();
    Check {
        property: "C10",
        level: "model_checking",
        rule: "counter mode: every schedule with at most the stated number of preemptions of threads creating styles; all names differ; distinct by schedule".into(),
        bounds: format!("(threads, styles per thread, styles before, preemptions): {plans:?}"),
        assumptions: vec!["sequentially consistent memory".into()],
        spaces: vec![Space::new(
            "threads creating styles",
            plans.len() as u64,
            move |i, rec| {
                let (n, per, warm, b) = plans[i as usize];
                explore(&format!("names {n}x{per} after {warm}"), b, 100_000, &|| names(n, per, warm), rec)
            },
            move |i| format!("{:?}", p2[i as usize]),
        )
        .chunked(1)],
    }
}

// ---------------------------------------------------------------- C14

const SHEETS: &[&str] = &["a: b;", "c: d;", ".x { e: f; }"];

/// Each server thread creates `per` styles (with repetitions) in a manager of its own; for each a
/// reading thread reads its data.  `when`: the reader starts at once.
fn readers(servers: usize, per: usize, style: bool) -> Setup {
    Box::new(move || {
        let o = out(servers * 2);
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for s in 0..servers {
            let (w, r) = render_static();
            bodies.push(body(&o, s * 2, move |v| {
                let mgr = StyleManager::builder().prefix(format!("p{s}").into()).writer(w).build().expect("manager");
                for k in 0..per {
                    // The text is parsed on this thread: the parse cache is shared.
                    let css = SHEETS[k % SHEETS.len()];
                    let (id, txt) = if style {
                        let m = Style::new_with_manager(css, &mgr).expect("style");
                        (m.get_class_name().to_string(), m.get_style_str().to_string())
                    } else {
                        let m = GlobalStyle::new_with_manager(css, &mgr).expect("style");
                        (m.id().to_string(), m.get_style_str().to_string())
                    };
                    v.push(format!("<style data-style=\"{id}\">{txt}</style>"));
                    // Creating it again adds nothing.
                    if k == 0 {
                        if style {
                            Style::new_with_manager(css, &mgr).expect("style");
                        } else {
                            GlobalStyle::new_with_manager(css, &mgr).expect("style");
                        }
                    }
                }
            }));
            bodies.push(body(&o, s * 2 + 1, move |v| {
                let d = r.read_style_data();
                let mut h = String::new();
                d.write_static_markup(&mut h).expect("markup");
                v.push(h);
                let mut h2 = String::new();
                d.clone().write_static_markup(&mut h2).expect("markup");
                v.push(h2);
                // A snapshot: it still says the same when this thread is done.
                std::mem::forget(d);
            }));
        }
        let judge: Judge = Box::new(move || {
            let r = o.lock().unwrap().clone();
            no_panic(&r)?;
            let mut sizes = vec![];
            for s in 0..servers {
                let made = &r[s * 2];
                let got = &r[s * 2 + 1][0];
                if *got != r[s * 2 + 1][1] {
                    return Err(format!("the data changed after it was read:\n{got}\n{}", r[s * 2 + 1][1]));
                }
                match (0..=made.len()).find(|n| made[..*n].concat() == *got) {
                    Some(n) => sizes.push(n),
                    None => return Err(format!("read\n{got}\nwhich is no prefix of the registrations\n{made:?}")),
                }
            }
            Ok(format!("{sizes:?}"))
        });
        (bodies, judge)
    })
}

pub fn c14(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    // servers, styles, scoped, preemptions
    let plans: Vec<(usize, usize, bool, usize)> = if t {
        vec![(1, 1, true, 99), (1, 2, true, 99), (1, 3, false, 99), (2, 1, true, 4), (2, 2, true, 3), (2, 2, false, 3)]
    } else {
        vec![(1, 1, true, 99), (1, 2, true, 99), (1, 3, false, 4), (2, 1, true, 2), (2, 2, true, 1)]
    };
    let p2 = plans.clone();
    Check {
        property: "C14",
        level: "model_checking",
        rule: "every schedule with at most the stated number of preemptions of rendering threads and threads that read their data; every reading is a prefix of the registrations; distinct by schedule".into(),
        bounds: format!("(servers, styles each, scoped, preemptions): {plans:?}"),
        assumptions: vec!["sequentially consistent memory".into()],
        spaces: vec![Space::new(
            "rendering and reading threads",
            plans.len() as u64,
            move |i, rec| {
                let (n, per, style, b) = plans[i as usize];
                explore(&format!("read {n}x{per} {style}"), b, 200_000, &|| readers(n, per, style), rec)
            },
            move |i| format!("{:?}", p2[i as usize]),
        )
        .chunked(1)],
    }
}
