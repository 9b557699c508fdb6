//! C20: interpolated values are evaluated freshly, once and in order.
use crate::batch::*;
use crate::c17::places;
use mck::css::{flatten, show, Flat};
use mck::csstok::lenient;
use mck::driver::*;
use mck::enumr::*;
use mck::model::*;
use std::collections::BTreeMap;

/// A program with k interpolations whose evaluations are observed.
#[derive(Clone)]
struct Prog {
    k: usize,
    /// The expression of type (css, class) that is evaluated.
    call: String,
    global: bool,
    /// The sheet with `${i}` for the values.
    m: Sheet,
    log: Vec<usize>,
}

fn fill(m: &Sheet, f: &dyn Fn(usize) -> String) -> Sheet {
    let mut m = m.clone();
    for (p, _) in places(&mut m) {
        for i in 0..9 {
            *p = p.replace(&format!("${{{i}}}"), &f(i));
        }
    }
    for i in &mut m {
        if let Item::Decl(d) = i {
            for i in 0..9 {
                d.key = d.key.replace(&format!("${{{i}}}"), &f(i));
            }
        }
    }
    m
}

fn mean(p: &Prog, v: &[usize]) -> Vec<Flat> {
    expand(&fill(&p.m, &|i| v.get(i).map(|x| format!("w{x}")).unwrap_or_default()), if p.global { None } else { Some("C") })
}

fn judge(p: &Prog, out: &Out) -> Result<u64, (&'static str, String)> {
    let v = match out {
        Out::Refused(m) => return Err(("refused", format!("the compiler refused it: {m}"))),
        Out::Panic(m) => return Err(("panic", m.clone())),
        Out::Ok(v) => v,
    };
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    for l in v {
        let f: Vec<&str> = l.splitn(4, '|').collect();
        if f.len() < 4 {
            return Err(("classes", l.clone()));
        }
        let nums = |s: &str| -> Vec<usize> { s.trim_matches(['[', ']']).split(", ").filter(|m| !m.is_empty()).map(|m| m.parse().unwrap()).collect() };
        let log = nums(f[2]);
        if f[0] == "panic" {
            // Evaluation stops at the first expression that panics.
            let at: usize = f[1].parse().unwrap();
            let n = p.log.iter().position(|i| *i == at).unwrap();
            if f[3] != "true" || log != p.log[..=n] {
                return Err(("panicking value", format!("{l}: expected the evaluations {:?}", &p.log[..=n])));
            }
            continue;
        }
        let vals = nums(f[1]);
        if log != p.log {
            return Err(("order", format!("evaluated {log:?}, expected {:?} ({})", p.log, f[0])));
        }
        let want = mean(p, &vals);
        match flatten(f[3]) {
            Ok(got) if lenient(&got) == lenient(&want) => {}
            Ok(got) => return Err(("value", format!("with the values {vals:?} ({}):\n{}\nmeans:\n{}\nexpected:\n{}", f[0], f[3], show(&got), show(&want)))),
            Err(e) => return Err(("malformed", format!("{e}: {}", f[3]))),
        }
        *seen.entry(format!("{} {vals:?}", f[0])).or_default() += 1;
    }
    let kinds = if p.k > 0 { 5 } else { 2 };
    if seen.len() < kinds << p.k {
        return Err(("unobserved", format!("{seen:?}")));
    }
    Ok(seen.len() as u64)
}

/// Ways of writing an expression that is the value numbered I; the shown ones are only evaluated
/// when they are put into text.
const FORMS: &[&str] = &[
    "e(I)", "EI.get()", "EI.plus(0)", "eI()", "forms::eI()", "form!(I)", "{ e(I) }", "(e(I))", "[e(I)][0]", "&e(I)", "e(I).clone()", "e(I) + \"\"", "if true { e(I) } else { String::new() }", "match 0 { _ => e(I) }", "(|| e(I))()",
    "format!(\"{}\", e(I))", "unsafe { e(I) }", "*Box::new(e(I))", "loop { break e(I) }", "At::<I>::get()", "<At<I> as Get>::got()", "At::<I>.own()", "EI.inner.get()", "EI.list[0].get()", "forms::EI.get()", "Some(e(I)).unwrap()", "Text { text: e(I) }", "Text { text: e(I) }.text",
    "(e(I),).0", "FNS[I]()", "CELL.with(|_| e(I))", "e(I).as_str().to_owned()", "{ let x = e(I); x }", "EI.get().clone()", "{ use forms::eI as f; f() }", "e({ const N: usize = I; N })", "std::convert::identity(e(I))", "'l: { break 'l e(I) }", "EI.r#type()", "NUM.get()", "NUM.plus(0)", "NUM.inner.get()", "forms::NUM.get()", "G_I.get()", "_g.list[I].get()", "sI.get()", "Unit::NUM.get()", "crate::NUM.get()", "e(0 + I)",
];
const SHOWN: &[&str] = &["VI", "EI.v", "forms::VI", "Shown(I)", "&VI", "At::<I>::SHOWN", "(VI)", "{ &VI }", "forms::UI", "forms::ALL[I]", "EI.v()", "EI.shown.v", "NUM.v", "NUM.v()", "Unit::NUM", "s_I"];

fn expr(form: &str, i: usize) -> String {
    let mut o = String::new();
    let form = form.replace("NUM", ["ZERO", "UNO"][i]);
    let c: Vec<char> = form.chars().collect();
    for (j, x) in c.iter().enumerate() {
        let upper = |k: Option<&char>| k.map_or(false, |k| k.is_ascii_uppercase());
        if *x == 'I' && !upper(c.get(j + 1)) {
            o.push_str(&i.to_string());
        } else {
            o.push(*x);
        }
    }
    o
}

/// Every form of expression alone, with each other, and with the surroundings of a place.
fn forms(pairs: bool) -> Vec<Prog> {
    let mut out: Vec<Prog> = vec![];
    let all: Vec<(&str, bool)> = FORMS.iter().map(|f| (*f, false)).chain(SHOWN.iter().map(|f| (*f, true))).collect();
    let mut add = |v: &[(&str, bool)]| {
        let shapes: [&dyn Fn(&[String]) -> Sheet; 5] = [
            &|v| v.iter().map(|x| Item::Decl(decl("k", x))).collect(),
            &|v| vec![Item::Block(vec![".s".into()], v.iter().map(|x| BItem::Decl(decl("k", x))).collect())],
            &|v| vec![Item::At(format!("@media {}", v[0]), v.iter().skip(1).map(|x| Item::Decl(decl("k", x))).chain([Item::Decl(decl("k", "y"))]).collect())],
            &|v| vec![Item::Block(v.to_vec(), vec![BItem::Decl(decl("k", "v"))])],
            &|v| v.iter().map(|x| Item::Decl(decl(x, "v"))).collect(),
        ];
        for (si, shape) in shapes.iter().enumerate() {
            if v.len() > 1 && (out.len() / 2 + si) % shapes.len() != 0 && !pairs {
                continue;
            }
            let k = v.len();
            let m = shape(&(0..k).map(|i| format!("${{{i}}}")).collect::<Vec<_>>());
            let fwd: Vec<usize> = (0..k).collect();
            let back: Vec<usize> = (0..k).rev().collect();
            let (w, mac, global) = [("sh", "sheet", false), ("sc", "css", false), ("st", "style", false), ("gl", "global_style", true)][out.len() / 2 % 4];
            let inl = text(&shape(&(0..k).map(|i| format!("${{{}}}", expr(v[i].0, i))).collect::<Vec<_>>()));
            out.push(Prog { k, call: format!("{w}({mac}!({inl}))"), global, m: m.clone(), log: fwd });
            // Names are no places in literals, and what is put into text there has no set order.
            if si < 4 && v.iter().all(|v| !v.1) {
                let lit = text(&shape(&(0..k).map(|i| format!("${{a{i}}}")).collect::<Vec<_>>()));
                let args: String = (0..k).rev().map(|i| format!(", a{i} = {}", expr(v[i].0, i))).collect();
                out.push(Prog { k, call: format!("{w}({mac}!({lit:?}{args}))"), global, m, log: back });
            }
        }
    };
    for f in &all {
        add(&[*f]);
    }
    for (i, f) in all.iter().enumerate() {
        for (j, g) in all.iter().enumerate() {
            if pairs || (i + j) % 6 == 0 {
                add(&[*f, *g]);
            }
        }
    }
    out
}

fn programs(max: usize, voc: &Vocab, most: usize) -> Vec<Prog> {
    let mut out: Vec<Prog> = vec![];
    for s in sheets(max, voc) {
        let n = places(&mut s.clone()).len();
        for set in 0u32..1 << n {
            let k = set.count_ones() as usize;
            if k > most {
                continue;
            }
            let put = |f: &dyn Fn(usize) -> String| {
                let mut s = s.clone();
                let mut i = 0;
                for (j, (p, kind)) in places(&mut s).into_iter().enumerate() {
                    if set >> j & 1 == 1 {
                        *p = if kind == 'c' { format!("@media {}", f(i)) } else { f(i) };
                        i += 1;
                    }
                }
                s
            };
            let m = put(&|i| format!("${{{i}}}"));
            let inl = text(&put(&|i| format!("${{e({i})}}")));
            let lit = text(&put(&|i| format!("${{a{i}}}")));
            let args: String = (0..k).rev().map(|i| format!(", a{i} = e({i})")).collect();
            let fwd: Vec<usize> = (0..k).collect();
            let back: Vec<usize> = (0..k).rev().collect();
            let n = out.len();
            let (w, mac, global) = [("sh", "sheet", false), ("sc", "css", false), ("st", "style", false), ("gl", "global_style", true)][n / 2 % 4];
            if k == 0 {
                let all = |src: &str| format!("sh(sheet!({src}))");
                out.push(Prog { k, call: all(&inl), global: false, m: m.clone(), log: vec![] });
                out.push(Prog { k, call: all(&format!("{lit:?}")), global: false, m, log: vec![] });
            } else {
                out.push(Prog { k, call: format!("{w}({mac}!({inl}))"), global, m: m.clone(), log: fwd });
                out.push(Prog { k, call: format!("{w}({mac}!({lit:?}{args}))"), global, m, log: back });
            }
        }
    }
    out
}

/// String literals with arguments in every order, used in every sequence.
fn uses(most: usize) -> Vec<Prog> {
    let mut out = vec![];
    let perms: [&[&[usize]]; 4] = [&[], &[&[0]], &[&[0, 1], &[1, 0]], &[&[0, 1, 2], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]]];
    for k in 1..=3usize {
        for i in 0..seq_count(k as u64, 1, most as u32) {
            let u = seq_decode(i, k as u64, 1, most as u32);
            if (0..k).any(|a| !u.contains(&a)) {
                continue;
            }
            for (pi, perm) in perms[k].iter().enumerate() {
                let shape = (i as usize + pi) % 4;
                let names: Vec<String> = u.iter().map(|a| format!("${{a{a}}}")).collect();
                let nums: Vec<String> = u.iter().map(|a| format!("${{{a}}}")).collect();
                let make = |l: &[String]| -> Sheet {
                    match shape {
                        0 => vec![Item::Decl(decl("k", &l.join(" ")))],
                        1 => l.iter().map(|a| Item::Decl(decl("k", a))).collect(),
                        2 => vec![Item::Block(l.to_vec(), vec![BItem::Decl(decl("k", &l[0]))])],
                        _ => {
                            let mut v = vec![Item::Decl(decl("j", "x"))];
                            for a in l {
                                v = vec![Item::Decl(decl("k", a)), Item::At(format!("@media {a}"), v)];
                            }
                            v
                        }
                    }
                };
                let mut log: Vec<usize> = perm.to_vec();
                let args: String = perm.iter().map(|a| format!(", a{a} = e({a})")).collect();
                log.dedup();
                out.push(Prog { k, call: format!("sh(sheet!({:?}{args}))", text(&make(&names))), global: false, m: make(&nums), log });
            }
        }
    }
    out
}

/// Inline interpolations next to each other and next to other tokens.
fn mixes(most: u32) -> Vec<Prog> {
    let alpha = ["${", "x ", "f(", ")", "\"s\"", ", "];
    let mut out: Vec<Prog> = vec![];
    for i in 0..seq_count(alpha.len() as u64, 1, most) {
        let v = seq_decode(i, alpha.len() as u64, 1, most);
        let (mut src, mut plain, mut k, mut depth, mut bad) = (String::new(), String::new(), 0, 0i32, false);
        for (j, a) in v.iter().enumerate() {
            match alpha[*a] {
                "${" => {
                    src.push_str(&format!("${{e({k})}}"));
                    plain.push_str(&format!("${{{k}}}"));
                    k += 1;
                }
                // Interpolated values are put next to their neighbours without a space.
                t => {
                    match t {
                        "f(" => depth += 1,
                        ")" => depth -= 1,
                        _ => {}
                    }
                    bad |= depth < 0 || (t == ", " && (j == 0 || j + 1 == v.len()));
                    let prev = if j == 0 { "" } else { alpha[v[j - 1]] };
                    let word = |t: &str| matches!(t, "x " | "f(" | "\"s\"");
                    if word(t) && matches!(prev, "x " | "\"s\"" | ")") {
                        plain.push(' ');
                    }
                    src.push_str(t);
                    src.push(' ');
                    plain.push_str(t.trim());
                }
            }
        }
        if bad || depth != 0 || k == 0 || k > 3 {
            continue;
        }
        let n = out.len();
        let (src, m) = match n % 3 {
            0 => (format!("k: {src};"), vec![Item::Decl(decl("k", &plain))]),
            1 => (format!(".s {{ k: {src}; }}"), vec![Item::Block(vec![".s".into()], vec![BItem::Decl(decl("k", &plain))])]),
            _ => (format!("@media x {{ k: {src}; }}"), vec![Item::At("@media x".into(), vec![Item::Decl(decl("k", &plain))])]),
        };
        out.push(Prog { k, call: format!("sh(sheet!({src}))"), global: false, m, log: (0..k).collect() });
    }
    out
}

fn progs(name: &str, cases: Vec<Prog>, size: usize) -> Space {
    let n = cases.len().div_ceil(size) as u64;
    let cases = std::rc::Rc::new(cases);
    let c2 = cases.clone();
    Space::new(
        name,
        n,
        move |i, rec| {
            let a = i as usize * size;
            let part = &cases[a..(a + size).min(cases.len())];
            let units: Vec<Unit> = part.iter().map(|p| Unit { body: format!("evals({}, &|| {})", p.k, p.call) }).collect();
            for (p, o) in part.iter().zip(run(&units)) {
                rec.eval();
                match judge(p, &o) {
                    Ok(n) => {
                        rec.distinct(&p.call);
                        rec.count_n("observed kinds of evaluations", n);
                        rec.count_n("evaluations", 3 << (3 * p.k));
                        rec.sample(|| p.call.clone());
                    }
                    Err((sig, d)) => rec.violation(format!("{sig} {}", p.call), format!("{}\n{d}", p.call)),
                }
            }
        },
        move |i| format!("{size} programs from {}", c2[i as usize * size].call),
    )
    .chunked(1)
}

/// Programs whose interpolations use the surrounding code, with what they have to give.
const SURROUNDINGS: &[(&str, &[&str])] = &[
    ("{ let (a, b) = generic::<u8>(); let (c, d) = generic::<String>(); vec![tight(a.to_style_str(None)), tight(b.to_style_str(None)), tight(c.to_style_str(None)), tight(d.to_style_str(None))] }", &[":root{k:0;j:x;}", ":root{k:0;j:x;}", ":root{k:;j:x;}", ":root{k:;j:x;}"]),
    ("vec![tight(recurse(0)), tight(recurse(1)), tight(recurse(2)), tight(recurse(1))]", &["end", ":root{k:1;j:3;}", "*", ":root{k:1;j:3;}"]),
    ("vec![format!(\"{:?}\", maybe(None)), tight(maybe(Some(\"v\")).unwrap()), format!(\"{:?}\", maybe(None)), tight(maybe(Some(\"w\")).unwrap())]", &["None", ":root{k:v;j:x;}", "None", ":root{k:w;j:x;}"]),
    ("vec![format!(\"{:?}\", maybe_lit(None)), tight(maybe_lit(Some(\"v\")).unwrap()), format!(\"{:?}\", maybe_lit(None)), tight(maybe_lit(Some(\"w\")).unwrap())]", &["None", ":root{k:v;j:x;}", "None", ":root{k:w;j:x;}"]),
    ("{ let mut c = 0; let mut v = vec![]; for _ in 0..3 { v.push(tight(sheet!(k: ${{ c += 1; c }} ${{ c += 1; c }};).to_style_str(None))); } v }", &[":root{k:12;}", ":root{k:34;}", ":root{k:56;}"]),
    ("{ let mut c = 0; let mut v = vec![]; for _ in 0..3 { v.push(tight(sheet!(\"k: ${b} ${a} ${b};\", a = { c += 1; c }, b = { c += 1; c }).to_style_str(None))); } v }", &[":root{k:212;}", ":root{k:434;}", ":root{k:656;}"]),
    ("{ let mut v = vec![]; for i in 0..9 { v.push(tight(sheet!(k: ${if i == 1 { continue } else if i == 3 { break } else { i }};).to_style_str(None))); } v }", &[":root{k:0;}", ":root{k:2;}"]),
    ("{ let mut v = vec![]; for i in 0..9 { v.push(tight(sheet!(\"k: ${a};\", a = if i == 1 { continue } else if i == 3 { break } else { i }).to_style_str(None))); } v }", &[":root{k:0;}", ":root{k:2;}"]),
    ("{ let s = String::from(\"kept\"); let a = sheet!(k: ${s};); let b = sheet!(\"k: ${s};\", s = s); vec![tight(a.to_style_str(None)), tight(b.to_style_str(None)), s] }", &[":root{k:kept;}", ":root{k:kept;}", "kept"]),
    ("{ let mut s = vec![1]; let a = sheet!(k: ${{ s.push(2); s.len() }}; j: ${s.len()};); let b = sheet!(\"k: ${x}; j: ${y};\", x = { s.push(3); s.len() }, y = s.len()); vec![tight(a.to_style_str(None)), tight(b.to_style_str(None))] }", &[":root{k:2;j:2;}", ":root{k:3;j:3;}"]),
    ("{ let c = Cell::new(0); let f = |x: i32| { c.set(c.get() + 1); sheet!(k: ${x + c.get()};) }; vec![tight(f(10).to_style_str(None)), tight(f(10).to_style_str(None)), c.get().to_string()] }", &[":root{k:11;}", ":root{k:12;}", "2"]),
    ("{ let a = style!(k: v;).unwrap(); let f = || style!(.${style!(k: v;).unwrap().get_class_name()} { k: ${style!(k: v;).unwrap().get_style_str().len()}; }).unwrap(); let (x, y) = (f(), f()); vec![(x.get_class_name() == y.get_class_name()).to_string(), x.get_style_str().contains(a.get_class_name()).to_string()] }", &["true", "true"]),
    ("{ let f = |v: &str| style!(k: ${v};).unwrap().get_class_name().to_string(); vec![(f(\"a\") == f(\"a\")).to_string(), (f(\"a\") == f(\"b\")).to_string()] }", &["true", "false"]),
    ("{ let f = |v: &str| style!(\"k: ${v};\", v = v).unwrap().get_class_name().to_string(); let g = |v: &str| style!(k: ${v};).unwrap().get_class_name().to_string(); vec![(f(\"a\") == f(\"a\")).to_string(), (f(\"a\") == f(\"b\")).to_string(), (f(\"a\") == g(\"a\")).to_string()] }", &["true", "false", "true"]),
    ("{ struct D(Cell<u8>); impl Display for D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.set(self.0.get() + 1); write!(f, \"d{}\", self.0.get()) } } let d = D(Cell::new(0)); let f = || sheet!(k: ${d};); vec![tight(f().to_style_str(None)), tight(f().to_style_str(None))] }", &[":root{k:d1;}", ":root{k:d2;}"]),
    ("{ let v: Vec<StylistSheet> = [\"a\", \"b\", \"a\"].iter().map(|x| sheet!(.s { k: ${x}; } .t { k: v; })).collect(); vec![(v[0] == v[2]).to_string(), (v[0] == v[1]).to_string()] }", &["true", "false"]),
    ("{ let v: Vec<StylistSheet> = [\"a\", \"b\", \"a\"].iter().map(|x| sheet!(\".s { k: ${x}; } .t { k: v; }\", x = x)).collect(); vec![(v[0] == v[2]).to_string(), (v[0] == v[1]).to_string()] }", &["true", "false"]),
    ("{ let value_0 = \"outer\"; let value_1 = \"other\"; let r = sheet!(\"k: ${a} ${b};\", a = value_1, b = value_0); vec![tight(r.to_style_str(None))] }", &[":root{k:otherouter;}"]),
    ("{ let a = \"first\"; let r = sheet!(\"k: ${a} ${b};\", b = a, a = \"second\"); vec![tight(r.to_style_str(None)), a.into()] }", &[":root{k:secondfirst;}", "first"]),
    ("{ let a = \"first\"; let r = sheet!(\"k: ${a} ${b};\", a = \"second\", b = a); vec![tight(r.to_style_str(None)), a.into()] }", &[":root{k:secondfirst;}", "first"]),
    // Many values one after another, then again, and many at a time.
    ("{ let wrong = (0..3000).chain(0..3000).filter(|i| tight(sheet!(k: ${i};).to_style_str(None)) != format!(\":root{{k:{i};}}\") || tight(sheet!(\"k: ${a};\", a = i).to_style_str(None)) != format!(\":root{{k:{i};}}\")).count(); vec![wrong.to_string()] }", &["0"]),
    ("{ let mut f = |i: i32| { let s = style!(.x { k: ${i}; }).unwrap(); (s.get_class_name().to_string(), s.get_style_str().contains(&format!(\"k: {i};\"))) }; let a: Vec<_> = (0..600).map(&mut f).collect(); let b: Vec<_> = (0..600).rev().map(&mut f).collect(); let mut names: Vec<_> = a.iter().map(|a| a.0.clone()).collect(); names.sort(); names.dedup(); vec![a.iter().chain(&b).all(|a| a.1).to_string(), a.iter().eq(b.iter().rev()).to_string(), names.len().to_string()] }", &["true", "true", "600"]),
    ("{ let mut f = |i: i32| { let s = style!(\".x { k: ${a}; }\", a = i).unwrap(); (s.get_class_name().to_string(), s.get_style_str().contains(&format!(\"k: {i};\"))) }; let a: Vec<_> = (0..600).map(&mut f).collect(); let b: Vec<_> = (0..600).rev().map(&mut f).collect(); let mut names: Vec<_> = a.iter().map(|a| a.0.clone()).collect(); names.sort(); names.dedup(); vec![a.iter().chain(&b).all(|a| a.1).to_string(), a.iter().eq(b.iter().rev()).to_string(), names.len().to_string()] }", &["true", "true", "600"]),
    ("{ fn deep(n: usize) -> String { if n == 0 { return \"end\".into(); } let s = sheet!(k: ${deep(n - 1).len()}; j: ${n};); tight(s.to_style_str(None)) } vec![deep(60)] }", &[":root{k:17;j:60;}"]),
    ("{ let long: String = (0..20000).map(|i| char::from(b'a' + (i % 26) as u8)).collect(); let a = tight(sheet!(k: ${&long};).to_style_str(None)); let b = tight(sheet!(\"k: ${l};\", l = &long).to_style_str(None)); vec![(a == format!(\":root{{k:{long};}}\")).to_string(), (a == b).to_string()] }", &["true", "true"]),
    ("{ let v = [\"é\", \"日本\", \"0\", \"-1\", \"1.5e3\", \"\\\"q;}\\\"\", \"url(a;b)\", \"true\", \"a b\"]; vec![v.iter().all(|x| tight(sheet!(k: ${x};).to_style_str(None)) == tight(format!(\":root{{k:{x};}}\")) && tight(sheet!(\"k: ${x};\", x = x).to_style_str(None)) == tight(format!(\":root{{k:{x};}}\"))).to_string()] }", &["true"]),
    ("vec![tight(sheet!(k: ${1u8} ${-2i64} ${3.5f32} ${'c'} ${true} ${\"s\"} ${String::from(\"t\")} ${std::borrow::Cow::Borrowed(\"u\")} ${std::rc::Rc::<str>::from(\"v\")} ${Box::new(6)} ${format_args!(\"{}\", 7)} ${u128::MAX};).to_style_str(None)), tight(sheet!(\"k: ${a}${b}${c}${d}${e}${f}${g}${h}${i}${j}${l};\", a = 1u8, b = -2i64, c = 3.5f32, d = 'c', e = true, f = \"s\", g = String::from(\"t\"), h = std::borrow::Cow::Borrowed(\"u\"), i = std::rc::Rc::<str>::from(\"v\"), j = Box::new(6), l = u128::MAX).to_style_str(None))]", &[":root{k:1-23.5ctruestuv67340282366920938463463374607431768211455;}", ":root{k:1-23.5ctruestuv6340282366920938463463374607431768211455;}"]),
];

/// Names of the surrounding code that expansions might use, too.
const LOCALS: &[&str] = &[
    "a", "b", "c", "k", "s", "x", "i", "f", "w", "v", "value_0", "value_1", "value_2", "value_a", "value_b", "arg_0", "arg_a", "arg0", "a_0", "_a", "__a", "a_value", "value", "values", "arg", "args", "key", "sheet", "style", "content", "contents", "fragment", "fragments",
    "buf", "tmp", "out", "result", "string", "items", "item", "expr", "display", "stylist", "std", "core", "alloc", "to_string", "self_ref", "sheet_ref", "__stylist_style_manager__", "css", "mgr", "manager", "vec", "format",
];
const ITEMS: &[&str] = &[
    "ITEMS", "SHEET_REF", "SHEET", "STYLE", "VALUE", "VALUE_0", "A", "B", "CONTENT", "REF", "STATIC", "CACHE", "Lazy", "Sheet", "ScopeContent", "Rule", "Block", "Selector", "StringFragment", "Cow", "String", "ToString", "Display", "Vec", "Box", "Into", "From", "Some", "None", "Ok", "Style", "StyleSource", "OnceCell", "LazyLock",
];

/// The names in the expansions of calls of every kind.
fn expansion_names() -> Vec<String> {
    let calls = [
        "sheet!(k: v; .s { k: v; } @media x { k: v; })",
        "sheet!(k: ${1}; .s, ${2} { k: ${3} x; } @media ${4} { .t { k: ${5}; ${6}: x; } })",
        "sheet!(\"k: v; .s { k: v; } @media x { k: v; } @keyframes y { from { k: v; } }\")",
        "sheet!(\"k: ${p}; .s, ${q} { k: ${p} x; } @media ${r} { .t { k: ${q}; } }\", p = 1, q = 2, r = 3)",
        "css!(k: ${1};)",
        "css!(\"k: ${p};\", p = 1)",
        "style!(k: ${1};)",
        "style!(\"k: ${p};\", p = 1)",
        "global_style!(k: ${1};)",
        "global_style!(\"k: ${p};\", p = 1)",
    ];
    let units: Vec<Unit> = calls.iter().map(|c| Unit { body: format!("let _ = {c}; vec![]") }).collect();
    const KEYWORDS: &[&str] = &[
        "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super",
        "trait", "true", "type", "unsafe", "use", "where", "while", "gen", "try", "box", "macro", "yield", "abstract", "become", "do", "final", "override", "priv", "typeof", "unsized", "virtual", "_",
    ];
    let text = expanded(&units);
    let mut names: Vec<String> = text
        .split(|c: char| !c.is_ascii_alphanumeric() && c != '_')
        .filter(|w| w.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && !KEYWORDS.contains(w) && !LOCALS.contains(w) && !ITEMS.contains(w))
        .map(|w| w.to_string())
        .collect();
    names.sort();
    names.dedup();
    names.truncate(300);
    names
}

/// Every name, bound in every way, used by interpolations in every kind of call.
fn names(pairs: bool) -> Vec<(String, Vec<String>)> {
    let mut out = vec![];
    let found = expansion_names();
    let upper = |n: &&str| n.starts_with(|c: char| c.is_ascii_uppercase());
    let of = |listed: &'static [&'static str], up: bool| listed.iter().copied().chain(found.iter().map(|n| n.as_str()).filter(|n| upper(n) == up)).collect::<Vec<_>>();
    let locals: Vec<(&str, String)> = of(LOCALS, false).into_iter().map(|n| (n, format!("let {n} = \"N-{n}\";"))).collect();
    let items: Vec<(&str, String)> = of(ITEMS, true)
        .into_iter()
        .enumerate()
        .map(|(i, n)| {
            let shown = format!("impl std::fmt::Display for {n} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ f.write_str(\"N-{n}\") }} }}");
            (
                n,
                match (n.chars().any(|c| c.is_lowercase()), i % 2) {
                    (true, _) => format!("#[allow(dead_code)] struct {n}; {shown}"),
                    (_, 0) => format!("static {n}: &str = \"N-{n}\";"),
                    _ => format!("const {n}: &str = \"N-{n}\";"),
                },
            )
        })
        .collect();
    let all: Vec<&(&str, String)> = locals.iter().chain(items.iter()).collect();
    let mut put = |bind: &str, v: [&str; 2], args: Option<[&str; 2]>| {
        let want = format!(":root{{k:N-{}N-{};}}.s{{k:N-{};j:x;}}", v[0], v[1], v[0]);
        let (x, y) = (v[0], v[1]);
        // The names of arguments start with a letter.
        let call = match args.map(|a| if a.iter().any(|n| n.starts_with('_')) { ["a", "b"] } else { a }) {
            None => format!("sheet!(k: ${{{x}}}${{{y}}}; .s {{ k: ${{{x}}}; j: x; }})"),
            Some([p, q]) => format!("sheet!(\"k: ${{{p}}}${{{q}}}; .s {{ k: ${{{p}}}; j: x; }}\", {p} = {x}, {q} = {y})"),
        };
        out.push((format!("{{ {bind} let r_ = {call}; vec![tight(r_.to_style_str(::std::option::Option::None))] }}"), vec![want]));
    };
    for (i, (n, b)) in all.iter().enumerate() {
        put(b, [n, n], None);
        put(b, [n, n], Some(["a", "b"]));
        put(b, [n, n], Some(["p", n]));
        put(b, [n, n], Some([n, "a_"]));
        for (j, (m, d)) in all.iter().enumerate() {
            if i != j && (pairs || (i + j) % 8 == 0) && ![n, m].iter().any(|n| found.iter().any(|f| f == *n)) {
                let both = format!("{b} {d}");
                match (i * 3 + j) % 4 {
                    0 => put(&both, [n, m], None),
                    1 => put(&both, [n, m], Some(["a", "b"])),
                    2 => put(&both, [n, m], Some([m, n])),
                    _ => put(&both, [n, m], Some([n, m])),
                }
            }
        }
    }
    out
}

/// Calls with many expressions, each evaluated three times.
fn many(most: usize) -> Vec<(String, Vec<String>)> {
    let mut out = vec![];
    for n in (4..=14).chain([31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257]).filter(|n| *n <= most) {
        for shape in 0..4 {
            for way in 0..4 {
                // The expressions, in the order of their places, and how each place is written.
                let place = |i: usize| match way {
                    0 => format!("${{w.e({i})}}"),
                    _ => format!("${{a{i}}}"),
                };
                let all = |put: &dyn Fn(usize) -> String, pre: &str, post: &str, sep: &str| (0..n).map(|i| format!("{pre}{}{post}", put(i))).collect::<Vec<_>>().join(sep);
                let text = |put: &dyn Fn(usize) -> String| match shape {
                    0 => all(put, "k:", ";", ""),
                    1 => format!("k:{};", all(put, "", "", ",")),
                    2 => format!("{}{{k:v;}}", all(put, "", "", ",")),
                    _ => all(put, "@media ", "{k:v;}", ""),
                };
                let order: Vec<usize> = match way {
                    0 | 1 => (0..n).collect(),
                    2 => (0..n).rev().collect(),
                    _ => (0..n).map(|i| (i * 7 + 3) % n).collect(),
                };
                let mut check = order.clone();
                check.sort();
                if check != (0..n).collect::<Vec<_>>() {
                    continue;
                }
                let args: String = order.iter().map(|i| format!(", a{i} = w.e({i})")).collect();
                let src = text(&place);
                let call = if way == 0 { format!("sheet!({src})") } else { format!("sheet!({src:?}{args})") };
                let plain = |r: usize| {
                    let t = text(&|i| format!("v{}", i * 10 + r));
                    format!("sheet_of({t:?})")
                };
                let body = format!(
                    "{{ struct W(Cell<usize>, std::cell::RefCell<Vec<usize>>); impl W {{ fn e(&self, i: usize) -> String {{ self.1.borrow_mut().push(i); format!(\"v{{}}\", i * 10 + self.0.get()) }} }} fn sheet_of(t: &str) -> StylistSheet {{ t.parse().unwrap() }} let w = W(Cell::new(0), Default::default()); let mut v = vec![]; for r in 0..3 {{ w.0.set(r); w.1.borrow_mut().clear(); let s = {call}; let order_ok = *w.1.borrow() == vec!{order:?}; let same = tight(s.to_style_str(None)) == tight([{}, {}, {}][r].to_style_str(None)); v.push(format!(\"{{order_ok}} {{same}}\")); }} v }}",
                    plain(0), plain(1), plain(2)
                );
                out.push((body, vec!["true true".into(); 3]));
            }
        }
    }
    out
}

fn surroundings(name: &str, all: Vec<(String, Vec<String>)>) -> Space {
    let size = 300;
    Space::new(
        name,
        all.len().div_ceil(size) as u64,
        move |i, rec| {
            let a = i as usize * size;
            let part = &all[a..(a + size).min(all.len())];
            let units: Vec<Unit> = part.iter().map(|(b, _)| Unit { body: b.to_string() }).collect();
            for ((b, w), o) in part.iter().zip(run(&units)) {
                rec.eval();
                match o {
                    Out::Ok(v) if v.len() == w.len() && v.iter().zip(w.iter()).all(|(g, w)| w == "*" || g == w) => rec.distinct(b),
                    o => rec.violation(format!("surroundings {b}"), format!("{b}\ngave {o:?}, expected {w:?}")),
                }
            }
        },
        |i| format!("part {i}"),
    )
    .chunked(1)
}

pub fn check(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let voc = Vocab { sels: vec![vec!["s".into()], vec!["s".into(), "t".into()]], conds: vec!["@media x".into()], keyframes: false, max_depth: 4 };
    let lean = Vocab { sels: vec![vec!["s".into()]], conds: vec!["@media x".into()], keyframes: false, max_depth: 5 };
    let spaces = vec![
        progs("structures", programs(if t { 4 } else { 3 }, &voc, 3), 200),
        progs("deep structures", programs(if t { 5 } else { 4 }, &lean, 1).into_iter().chain(programs(if t { 4 } else { 0 }, &lean, 2).into_iter().filter(|p| p.k == 2)).collect(), 250),
        progs("uses of arguments", uses(if t { 6 } else { 4 }), 250),
        progs("neighbours", mixes(if t { 6 } else { 4 }), 200),
        progs("forms of expressions", forms(t), 200),
        surroundings("surrounding code", SURROUNDINGS.iter().map(|(b, w)| (b.to_string(), w.iter().map(|w| w.to_string()).collect())).collect()),
        surroundings("many expressions", many(if t { 257 } else { 65 })),
        surroundings("names of the surrounding code", names(t)),
    ];
    Check {
        property: "C20",
        level: "exploration",
        rule: "every macro program of the listed spaces is compiled by the real compiler and evaluated under every sequence of three value assignments, after a panic of each expression, within its own evaluation, and in two threads; each evaluation must have evaluated each expression once, in source order, and have the meaning of the sheet with the values of that evaluation; classes are equal exactly for equal values".into(),
        bounds: format!("tier {tier:?}: sheets up to {} nodes (two selector lists) with every set of up to {} interpolated places and up to {} nodes with up to one{}, inline and as a literal with arguments in reverse order; all use sequences up to {} over up to three arguments in all orders; inline value token sequences up to {}", if t { 4 } else { 3 }, 3, if t { 5 } else { 4 }, if t { " (4 nodes: two)" } else { "" }, if t { 6 } else { 4 }, if t { 6 } else { 4 }),
        assumptions: vec!["two values per expression; the values are words".into()],
        spaces,
    }
}
