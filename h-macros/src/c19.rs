//! C19: macro calls that cannot be honoured are refused by the compiler, corrected ones are not.
use crate::batch::*;
use crate::c17::places;
use crate::c18::{spaced, Leaf, K};
use mck::css::{flatten, show};
use mck::csstok::lenient;
use mck::driver::*;
use mck::enumr::*;
use mck::model::*;
use mck::refparse::{parse, Ref};
use std::collections::BTreeSet;
use stylist::ast::Sheet as Ast;

#[derive(Clone)]
struct Case {
    kind: &'static str,
    /// The misuse and, if there is one, the same program without it.
    bad: Option<String>,
    good: Option<String>,
    /// The error comes from type checking, not from the macro.
    types: bool,
}

fn unit(call: &str) -> Unit {
    Unit { body: format!("let _ = {call}; vec![]") }
}

/// The surroundings of a place for an item: text before and after it, and whether it is in a block.
fn contexts(depth: usize) -> Vec<(String, String, bool)> {
    let wraps: [(&str, bool); 3] = [("@media x { ", false), ("@supports (a: b) { ", false), (".s { ", true)];
    let mut level = vec![(String::new(), String::new(), false)];
    let mut out = level.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for (a, b, inb) in &level {
            for (w, block) in wraps {
                if *inb && block {
                    continue;
                }
                next.push((format!("{a}{w}"), format!(" }}{b}"), *inb || block));
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    let mut all = vec![];
    for (a, b, inb) in out {
        let before: &[&str] = if inb { &["", "j: w; ", "@media y { j: w; } "] } else { &["", "j: w; ", ".t { j: w; } ", "@media y { j: w; } "] };
        let after: &[&str] = if inb { &["", " j: w;", " @media y { j: w; }"] } else { &["", " j: w;", " .t { j: w; }", " @media y { j: w; }"] };
        for x in before {
            for y in after {
                all.push((format!("{a}{x}"), format!("{y}{b}"), inb));
            }
        }
    }
    all
}

/// (kind, where: 's'cope, 'b'lock or '*', the misuse, the corrected item)
const INLINE: &[(&str, char, &str, &str)] = &[
    ("unsupported at-rule", '*', "@keyframes k { from { a: b; } to { a: c; } }", "@media k { a: b; }"),
    ("unsupported at-rule", '*', "@font-face { a: b; }", "@media k { a: b; }"),
    ("unsupported at-rule", '*', "@container (w: x) { a: b; }", "@supports (w: x) { a: b; }"),
    ("unsupported at-rule", '*', "@layer l { a: b; }", "@media l { a: b; }"),
    ("unsupported at-rule", '*', "@page { a: b; }", "@media page { a: b; }"),
    ("unsupported at-rule", '*', "@media2 x { a: b; }", "@media x { a: b; }"),
    ("unsupported at-rule", '*', "@-media x { a: b; }", "@media x { a: b; }"),
    ("unsupported at-rule", '*', "@-webkit-media x { a: b; }", "@media x { a: b; }"),
    ("unsupported at-rule", '*', "@--media x { a: b; }", "@media x { a: b; }"),
    ("unsupported at-rule", '*', "@mediax { a: b; }", "@media x { a: b; }"),
    ("unsupported at-rule", '*', "@media-x { a: b; }", "@media x { a: b; }"),
    ("unsupported at-rule", '*', "@_supports (w: x) { a: b; }", "@supports (w: x) { a: b; }"),
    ("unsupported at-rule", '*', "@supports-x (w: x) { a: b; }", "@supports (w: x) { a: b; }"),
    ("unsupported at-rule", '*', "@-moz-document x { a: b; }", "@media x { a: b; }"),
    ("unsupported at-rule", '*', "@support (w: x) { a: b; }", "@supports (w: x) { a: b; }"),
    ("unsupported at-rule", '*', "@${\"media\"} x { a: b; }", "@media x { a: b; }"),
    ("unsupported at-rule", '*', "@ \"media\" x { a: b; }", "@media x { a: b; }"),
    ("unsupported at-rule", '*', "@import \"x\";", ""),
    ("unsupported at-rule", '*', "@charset \"x\";", ""),
    ("nested block", 'b', ".n { a: b; }", "a: b;"),
    ("nested block", 'b', ".n { }", "a: b;"),
    ("nested block", 'b', "& > .n, m { a: ${1}; }", "a: ${1};"),
    ("nested block", 'b', "${\"n\"} { a: b; }", "a: b;"),
    ("nested block", 'b', "@media z { .n { a: b; } }", "@media z { a: b; }"),
    ("nested block", 'b', "@supports (z: z) { c: d; @media z { c: d; .n { a: b; } } }", "@supports (z: z) { c: d; @media z { c: d; } }"),
    ("nested block", 's', ".m { .n { a: b; } }", ".m { a: b; }"),
    ("nested block", 's', ".m { c: d; .n { a: b; } c: d; }", ".m { c: d; c: d; }"),
    ("block in a value", '*', "a: { b }; ", "a: b;"),
    ("block in a value", '*', "a: { b: c; };", "a: b;"),
    ("block in a value", '*', "a: b { c };", "a: b c;"),
    ("block in a value", '*', "a: { };", "a: b;"),
    ("block in a value", '*', "a: f({ b });", "a: f(b);"),
    ("block in a value", '*', "a: ${1} { ${2} };", "a: ${1} ${2};"),
    ("block in a value", '*', "a: b, f(c, g({ d }));", "a: b, f(c, g(d));"),
    ("illegal attribute name", '*', "\"a\": b;", "a: b;"),
    ("illegal attribute name", '*', "1: b;", "a: b;"),
    ("illegal attribute name", '*', "'c': b;", "c: b;"),
    ("illegal attribute name", '*', ".a: b;", "a: b;"),
    ("illegal attribute name", '*', "#a: b;", "a: b;"),
    ("illegal attribute name", '*', "a.b: c;", "a: c;"),
    ("illegal attribute name", '*', "a b: c;", "a: c;"),
    ("illegal attribute name", '*', "a, b: c;", "a: c;"),
    ("illegal attribute name", '*', "f(a): b;", "f: b;"),
    ("illegal attribute name", '*', "[a]: b;", "a: b;"),
    ("illegal attribute name", '*', "&: b;", "a: b;"),
    ("illegal attribute name", '*', "*a: b;", "a: b;"),
    ("illegal attribute name", '*', ": b;", "a: b;"),
    ("illegal attribute name", '*', "${\"a\"} x: b;", "${\"a\"}: b;"),
    ("illegal declaration", '*', "a;", "a: b;"),
    ("illegal declaration", '*', "a b;", "a: b;"),
    ("illegal declaration", '*', ";", "a: b;"),
    ("illegal declaration", '*', "a: b; ;", "a: b;"),
    ("illegal declaration", '*', "${\"a\"};", "a: ${\"a\"};"),
    ("illegal declaration", '*', "a = b;", "a: b;"),
    ("illegal declaration", '*', "a: b & c;", "a: b c;"),
    ("illegal declaration", '*', "a: @b;", "a: b;"),
    ("illegal declaration", '*', "a: b > c;", "a: b c;"),
    ("illegal declaration", '*', "a: $b;", "a: ${\"b\"};"),
    ("illegal declaration", '*', "a: f(b @ c);", "a: f(b c);"),
    ("illegal selector", 's', ".a ! b { c: d; }", ".a b { c: d; }"),
    ("illegal selector", 's', ".a / b { c: d; }", ".a b { c: d; }"),
    ("illegal selector", 's', ".a % b { c: d; }", ".a b { c: d; }"),
    ("illegal selector", 's', "1 { c: d; }", ".a { c: d; }"),
    ("illegal selector", 's', ".a 1px { c: d; }", ".a px { c: d; }"),
    ("illegal selector", 's', "'a' { c: d; }", ".a { c: d; }"),
    ("illegal selector", 's', ".a > (b) { c: d; }", ".a { c: d; }"),
    ("illegal selector", 's', "[a / b] { c: d; }", "[a] { c: d; }"),
    ("illegal selector", 's', ".a; b { c: d; }", ".a, b { c: d; }"),
    ("illegal selector", 's', ".a", ".a { c: d; }"),
    ("illegal interpolation", '*', "a: ${};", "a: ${1};"),
    ("illegal interpolation", '*', "a: ${1, 2};", "a: ${1} ${2};"),
    ("illegal interpolation", '*', "a: ${b c};", "a: ${1};"),
    ("illegal interpolation", '*', "a: ${let x = 1};", "a: ${1};"),
    ("illegal interpolation", '*', "${}: b;", "${\"a\"}: b;"),
    ("illegal interpolation", '*', "@media ${} { a: b; }", "@media ${\"x\"} { a: b; }"),
    ("illegal interpolation", 's', "${} { a: b; }", "${\"x\"} { a: b; }"),
    ("illegal interpolation", 's', ".a:not(${}) { a: b; }", ".a:not(${\"x\"}) { a: b; }"),
    ("nothing where something is needed", 's', "{ c: d; }", ".a { c: d; }"),
    ("nothing where something is needed", 's', "{ }", ".a { }"),
    ("nothing where something is needed", 's', ", .a { c: d; }", ".a { c: d; }"),
    ("nothing where something is needed", 's', ".a, , .b { c: d; }", ".a, .b { c: d; }"),
    ("nothing where something is needed", 's', ", { c: d; }", ".a { c: d; }"),
    ("nothing where something is needed", 's', ", ${\"a\"} { c: ${1}; }", "${\"a\"} { c: ${1}; }"),
    ("nothing where something is needed", '*', "a: ;", "a: b;"),
    ("nothing where something is needed", '*', "${\"a\"}: ;", "${\"a\"}: ${\"b\"};"),
    ("nothing where something is needed", '*', "@media { a: b; }", "@media x { a: b; }"),
    ("nothing where something is needed", '*', "@supports { a: b; }", "@supports (x: y) { a: b; }"),
    ("at-rule without a block", '*', "@media", "@media x { a: b; }"),
    ("at-rule without a block", '*', "@ { a: b; }", "@media x { a: b; }"),
];

/// Items whose interpolated value has no text; the macro itself accepts them.
const SILENT: &[(char, &str)] = &[
    ('*', "a: ${X};"), ('*', "a: b f(c, ${X});"), ('*', "${X}: b;"), ('*', "a: ${1} ${X} ${2};"), ('*', "@media ${X} { a: b; }"), ('*', "@supports (a: ${X}) { a: b; }"), ('s', "${X} { a: b; }"), ('s', ".a, ${X} > b { c: d; }"),
    ('s', ".a:not(${X}) { a: b; }"), ('s', "[a=${X}] { a: b; }"), ('s', ".a { @media ${1} { a: ${X}; } }"),
];
const SILENT_LITERAL: &[(char, &str)] = &[('*', "a: ${x};"), ('*', "a: b f(c, ${x}) ${x};"), ('*', "@media ${x} { a: b; }"), ('*', "@supports (a: ${x}) { a: b; }"), ('s', "${x} { a: b; }"), ('s', ".a, ${x} > b { c: d; }"), ('s', ".a { @media y { a: ${x}; } }")];
const NO_TEXT: &[&str] = &["()", "(1, 2)", "Some(1)", "vec![1]", "[1]", "add", "|x: u8| x", "Err::<u8, u8>(1)", "Box::new([1u8])", "std::path::Path::new(\"p\")", "HashMap::<u8, u8>::new()", "b\"x\""];

const MACROS: [&str; 4] = ["sheet", "css", "style", "global_style"];

fn inline(depth: usize) -> Vec<Case> {
    let mut out = vec![];
    let ctx = contexts(depth);
    for (kind, place, bad, good) in INLINE {
        for (a, b, inb) in &ctx {
            // What follows would become part of an unfinished item.
            let open = bad.ends_with(".a") || bad.ends_with("@media");
            if (*place == 'b' && !inb) || (*place == 's' && *inb) || (open && !b.trim_start().is_empty() && !b.trim_start().starts_with('}')) {
                continue;
            }
            let m = MACROS[out.len() % 4];
            out.push(Case { kind, bad: Some(format!("{m}!({a}{bad}{b})")), good: Some(format!("{m}!({a}{good}{b})")), types: false });
        }
    }
    out
}

fn displays(depth: usize) -> Vec<Case> {
    let mut out = vec![];
    for (i, (a, b, inb)) in contexts(depth).iter().enumerate() {
        for (j, (place, item)) in SILENT.iter().enumerate() {
            if *place == 's' && *inb {
                continue;
            }
            let m = MACROS[out.len() % 4];
            let call = |e: &str| format!("{m}!({a}{}{b})", item.replace('X', e));
            out.push(Case { kind: "value without text", bad: Some(call(NO_TEXT[(i + j) % NO_TEXT.len()])), good: Some(call("\"v\"")), types: true });
        }
        for (j, (place, item)) in SILENT_LITERAL.iter().enumerate() {
            if *place == 's' && *inb {
                continue;
            }
            let m = MACROS[out.len() % 4];
            let call = |e: &str| format!("{m}!({:?}, x = {e})", format!("{a}{item}{b}"));
            out.push(Case { kind: "value without text", bad: Some(call(NO_TEXT[(i + j) % NO_TEXT.len()])), good: Some(call("\"v\"")), types: true });
        }
    }
    out
}

/// Names for arguments that are not used, some close to those that are.
const UNUSED: &[&str] = &["unused", "_x", "_unused", "__", "a", "a00", "_a0", "A0", "r#type", "é", "value_0", "x_", "a0_", "s", "Type"];

/// Placeholders and arguments that do not fit, for every sheet and set of places.
fn arguments(max: usize, voc: &Vocab) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    for s in sheets(max, voc) {
        let n = places(&mut s.clone()).len();
        for set in 0u32..1 << n {
            let k = set.count_ones() as usize;
            if k > 3 {
                continue;
            }
            let put = |f: &dyn Fn(usize) -> String| {
                let mut s = s.clone();
                let mut i = 0;
                for (j, (p, kind)) in places(&mut s).into_iter().enumerate() {
                    if set >> j & 1 == 1 {
                        *p = match kind {
                            'c' => format!("{} {}", p.split(' ').next().unwrap(), f(i)),
                            'v' if j % 2 == 1 => format!("f(\"{}\")", f(i)),
                            _ => f(i),
                        };
                        i += 1;
                    }
                }
                format!("{:?}", text(&s))
            };
            let lit = put(&|i| format!("${{a{i}}}"));
            let args: Vec<String> = (0..k).map(|i| format!(", a{i} = {i}")).collect();
            let m = MACROS[out.len() % 4];
            let good = format!("{m}!({lit}{})", args.concat());
            out.push(Case { kind: "none", bad: None, good: Some(good.clone()), types: false });
            for i in 0..k {
                let without: String = args.iter().enumerate().filter(|a| a.0 != i).map(|a| a.1.as_str()).collect();
                out.push(Case { kind: "placeholder without argument", bad: Some(format!("{m}!({lit}{without})")), good: None, types: false });
                let renamed = args.concat().replace(&format!("a{i} ="), &format!("A{i} ="));
                out.push(Case { kind: "placeholder without argument", bad: Some(format!("{m}!({lit}{renamed})")), good: None, types: false });
                let form = ["${}", "${1a}", "${a b}", "${a", "${a.b}", "${_a}", "${a-b}", "${a()}"][out.len() % 8];
                let broken = put(&|j| if i == j { form.to_string() } else { format!("${{a{j}}}") });
                out.push(Case { kind: "malformed placeholder", bad: Some(format!("{m}!({broken}{without})")), good: None, types: false });
            }
            for i in 0..=k {
                let mut l = args.clone();
                l.insert(i, format!(", {} = 1", UNUSED[out.len() % UNUSED.len()]));
                out.push(Case { kind: "unused argument", bad: Some(format!("{m}!({lit}{})", l.concat())), good: None, types: false });
                for d in 0..k {
                    for v in [d, 7] {
                        let mut l = args.clone();
                        l.insert(i, format!(", a{d} = {v}"));
                        out.push(Case { kind: "duplicate argument", bad: Some(format!("{m}!({lit}{})", l.concat())), good: None, types: false });
                    }
                }
            }
        }
    }
    out
}

/// Argument lists that are not lists of named arguments.
fn lists() -> Vec<Case> {
    let lit = "\"k: ${a} ${b};\"";
    let bad = [
        ", 1, b = 2", ", a, b = 2", ", a = 1, b", ", a = 1, b =", ", a = 1, b = ,", ", a = 1 b = 2", ", a = 1; b = 2", ", a = 1,, b = 2", ",, a = 1, b = 2", " a = 1, b = 2", ", \"a\" = 1, b = 2", ", a == 1, b = 2", ", a: 1, b: 2", ", {a} = 1, b = 2", ", a => 1, b = 2",
        ", a = 1, b = 2 3", ", a = 1, b = 2, 3", ", a = 1, b = 2, c", ", a = 1, b = 2,,", ", a = 1, b = 2;", ", &a = 1, b = 2", ", a.b = 1, b = 2", ", a = let x = 1, b = 2", ", a += 1, b = 2", "", ",", ", a = 1, a = 2, b = 3",
    ];
    let good = [", a = 1, b = 2", ", a = 1, b = 2,", ", b = 2, a = 1", ", a = (1, 2).0, b = [1][0]", ", a = { 1 }, b = if true { 1 } else { 2 }", ",a=1,b=2"];
    let mut out = vec![];
    for m in MACROS {
        for b in bad {
            out.push(Case { kind: "argument list", bad: Some(format!("{m}!({lit}{b})")), good: None, types: false });
        }
        for g in good {
            out.push(Case { kind: "argument list", bad: None, good: Some(format!("{m}!({lit}{g})")), types: false });
        }
        for (b, g) in [("1", "\"1: a;\""), ("'c'", "\"c: a;\""), ("b\"k: v;\"", "\"k: v;\""), ("c\"k: v;\"", "r\"k: v;\""), ("1.5, a = 1", "\"k: ${a};\", a = 1"), ("true", "\"\"")] {
            let good = if g.starts_with("\"1") { None } else { Some(format!("{m}!({g})")) };
            out.push(Case { kind: "not a string", bad: Some(format!("{m}!({b})")), good, types: false });
        }
    }
    out
}

/// Every text: the macro has to refuse exactly what the parser refuses.
fn texts(most: u32) -> Vec<Case> {
    let alpha = [".a", "{", "}", "k", ":", "v", ";", "@media x", "&", "\"", "/*", "*/", "(", ")", "@x", ","];
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for i in 0..seq_count(alpha.len() as u64, 1, most) {
        let t: Vec<&str> = seq_decode(i, alpha.len() as u64, 1, most).into_iter().map(|i| alpha[i]).collect();
        for t in if i % 2 == 0 { [t.join(" "), String::new()] } else { [t.concat(), String::new()] } {
            if t.is_empty() || !seen.insert(t.clone()) {
                continue;
            }
            let call = format!("sheet!({t:?})");
            match t.parse::<Ast>() {
                Ok(_) => out.push(Case { kind: "none", bad: None, good: Some(call), types: false }),
                Err(_) => out.push(Case { kind: "unparsable CSS", bad: Some(call), good: None, types: false }),
            }
        }
    }
    out
}

/// Broken fragments inside an otherwise correct text.
fn broken(depth: usize) -> Vec<Case> {
    let items: &[(char, &str, &str)] = &[
        ('*', "k v;", "k: v;"), ('*', "k: ;", "k: v;"), ('*', ": v;", "k: v;"), ('*', "k: \"v;", "k: \"v\";"), ('*', "k: f(v;", "k: f(v);"), ('*', "k: v; }", "k: v;"), ('*', "@media { k: v; }", "@media x { k: v; }"), ('*', "@media x { k: v;", "@media x { k: v; }"),
        ('*', "/* k: v;", "/* k: v; */"), ('s', ".n { k: v; ", ".n { k: v; }"), ('s', "{ k: v; }", ".n { k: v; }"), ('s', ".n, { k: v; }", ".n { k: v; }"), ('s', ".n(", ".n { }"), ('*', "k: v;;;", "k: v;"), ('b', ".n { k: v; }", "k: v;"),
    ];
    let mut out = vec![];
    for (place, bad, good) in items {
        for (a, b, inb) in contexts(depth) {
            if (*place == 's' && inb) || (*place == 'b' && !inb) {
                continue;
            }
            let m = MACROS[out.len() % 4];
            let (tb, tg) = (format!("{a}{bad}{b}"), format!("{a}{good}{b}"));
            // A fragment may be acceptable to the parser, for example a stray semicolon.
            let ok = tb.parse::<Ast>().is_ok();
            assert!(tg.parse::<Ast>().is_ok(), "{tg}");
            let call = |t: &str| format!("{m}!({t:?})");
            out.push(Case { kind: "unparsable CSS", bad: (!ok).then(|| call(&tb)), good: Some(call(&tg)), types: false });
        }
    }
    out
}

/// Pieces of inline CSS: source, the leaves they are made of.
const PIECES: &[(&str, &[(&str, K)])] = &[
    ("a", &[("a", K::Word)]), (":", &[(":", K::P(':'))]), (";", &[(";", K::P(';'))]), ("{ k: v; }", &[("{ k: v; }", K::P('{'))]), ("@media", &[("@media ", K::P('@'))]), (",", &[(",", K::P(','))]), ("${\"i\"}", &[("i", K::Ex)]),
    ("x", &[("x", K::Word)]), (".", &[(".", K::P('.'))]), ("{ }", &[("{ }", K::P('{'))]), ("@supports", &[("@supports ", K::P('@'))]), ("\"s\"", &[("\"s\"", K::Word)]), ("1", &[("1", K::Word)]), ("#", &[("#", K::P('#'))]), ("&", &[("&", K::P('&'))]),
    ("*", &[("*", K::P('*'))]), ("/", &[("/", K::P('/'))]), ("%", &[("%", K::P('%'))]), ("=", &[("=", K::P('='))]), (">", &[(">", K::P('>'))]), ("!", &[("!", K::P('!'))]),
    ("[h]", &[("[", K::Open), ("h", K::Word), ("]", K::Close)]), ("(c: d)", &[("(", K::Open), ("c", K::Word), (":", K::P(':')), ("d", K::Word), (")", K::Close)]), ("()", &[("(", K::Open), (")", K::Close)]),
    ("(c; d)", &[("(", K::Open), ("c", K::Word), (";", K::P(';')), ("d", K::Word), (")", K::Close)]), ("f(@media)", &[("f", K::Word), ("(", K::Open), ("@media ", K::P('@')), (")", K::Close)]), ("[{ k: v; }]", &[("[", K::Open), ("{ k: v; }", K::P('{')), ("]", K::Close)]),
    ("f({ k: v; })", &[("f", K::Word), ("(", K::Open), ("{ k: v; }", K::P('{')), (")", K::Close)]),
];

/// Source, and the text it spells by the documented spacing rule.
fn spell(seq: &[usize]) -> (String, String) {
    let mut leaves: Vec<Leaf> = vec![];
    for i in seq {
        for (t, k) in PIECES[*i].1 {
            leaves.push(Leaf { src: String::new(), text: t.to_string(), k: *k, gap: false });
        }
    }
    let mut text = String::new();
    for (i, l) in leaves.iter().enumerate() {
        if i > 0 && spaced(&leaves[i - 1], l) {
            text.push(' ');
        }
        text.push_str(&l.text);
    }
    (seq.iter().map(|i| PIECES[*i].0).collect::<Vec<_>>().join(" "), text)
}

/// Every sequence of pieces: what is accepted has to be CSS, and mean what it spells.
fn spelled(name: &str, pieces: usize, most: u32, around: &'static [(&'static str, &'static str)], size: u64) -> Space {
    let n = seq_count(pieces as u64, 0, most);
    let program = move |i: u64| {
        let seq = seq_decode(i, pieces as u64, 0, most);
        let (src, text) = spell(&seq);
        let (a, b) = around[i as usize % around.len()];
        (format!("sheet!({a}{src}{b})"), format!("{a}{text}{b}"))
    };
    Space::new(
        name,
        n.div_ceil(size),
        move |b, rec| {
            let all: Vec<(String, String)> = (b * size..((b + 1) * size).min(n)).map(program).collect();
            let units: Vec<Unit> = all.iter().map(|(p, _)| Unit { body: format!("inl({p})") }).collect();
            for ((p, text), o) in all.iter().zip(run(&units)) {
                rec.eval();
                let v = match o {
                    Out::Refused(_) => {
                        rec.count("refused");
                        continue;
                    }
                    Out::Panic(m) => {
                        rec.violation(format!("panic {p}"), format!("{p}\npanics at run time: {m}"));
                        continue;
                    }
                    Out::Ok(v) => v,
                };
                rec.count("accepted");
                rec.distinct(p);
                rec.sample(|| format!("{p}: {}", v[1]));
                if !v[2].is_empty() {
                    rec.violation(format!("unparsable {p}"), format!("{p}\nis accepted, but the parser refuses the CSS it makes: {}\n{}", v[2], v[0]));
                    continue;
                }
                match parse(text) {
                    Ref::Bad(m) => rec.violation(format!("accepted {p}"), format!("{p}\nspells {text}\nwhich is not CSS ({m}), but is accepted and becomes\n{}", v[0])),
                    Ref::Must(m) | Ref::May(m, _) => {
                        for (css, class) in [(&v[0], Some("C")), (&v[1], None)] {
                            let want = lenient(&expand(&m, class));
                            match flatten(css) {
                                Ok(f) if lenient(&f) == want => {}
                                Ok(f) => rec.violation(format!("meaning {p}"), format!("{p}\nspells {text}\nwhich means\n{}\nbut becomes\n{}", show(&want), show(&f))),
                                Err(e) => rec.violation(format!("malformed {p}"), format!("{p}\nbecomes\n{css}\n{e}")),
                            }
                        }
                    }
                    Ref::Loose(_) => rec.count("with error recovery"),
                }
            }
        },
        move |b| format!("{size} programs from {}", program(b * size).0),
    )
    .chunked(1)
}

const PLAIN: &[(&str, &str)] = &[("", "")];
const WITHIN: &[(&str, &str)] = &[("k: v; ", ""), ("@media y { ", " }"), (".t { ", " }"), (".t { k: v; @media y { ", " } }"), ("@supports (y: z) { k: v; ", " }")];

fn cases(name: &str, cases: Vec<Case>, size: usize) -> Space {
    let n = cases.len().div_ceil(size) as u64;
    let cases = std::rc::Rc::new(cases);
    let c2 = cases.clone();
    Space::new(
        name,
        n,
        move |i, rec| {
            let a = i as usize * size;
            let part = &cases[a..(a + size).min(cases.len())];
            for types in [false, true] {
                let of: Vec<&Case> = part.iter().filter(|c| c.types == types && c.bad.is_some()).collect();
                let units: Vec<Unit> = of.iter().map(|c| unit(c.bad.as_ref().unwrap())).collect();
                if units.is_empty() {
                    continue;
                }
                for (c, r) in of.iter().zip(refused(&units)) {
                    rec.eval();
                    let call = c.bad.as_ref().unwrap();
                    match r {
                        Some(m) => {
                            rec.distinct(call);
                            rec.count(c.kind);
                            rec.sample(|| format!("{call}: {m}"));
                        }
                        None => rec.violation(format!("accepted {call}"), format!("{call}\nis accepted by the compiler ({})", c.kind)),
                    }
                }
            }
            let of: Vec<&Case> = part.iter().filter(|c| c.good.is_some()).collect();
            let units: Vec<Unit> = of.iter().map(|c| unit(c.good.as_ref().unwrap())).collect();
            if !units.is_empty() {
                for (c, r) in of.iter().zip(refused(&units)) {
                    rec.eval();
                    rec.count("corrected programs");
                    let call = c.good.as_ref().unwrap();
                    if let Some(m) = r {
                        rec.violation(format!("refused {call}"), format!("{call}\nis refused by the compiler: {m}"));
                    }
                }
            }
        },
        move |i| format!("{size} programs from {}", c2[i as usize * size].bad.as_ref().or(c2[i as usize * size].good.as_ref()).unwrap()),
    )
    .chunked(1)
}

pub fn check(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let voc = Vocab { sels: vec![vec!["s".into()], vec!["s".into(), "t".into()]], conds: vec!["@media x".into(), "@supports (a: b)".into()], keyframes: true, max_depth: 3 };
    let d = if t { 3 } else { 2 };
    let spaces = vec![
        cases("inline misuses", inline(d), 800),
        cases("values without text", displays(d), 800),
        cases("arguments", arguments(if t { 3 } else { 2 }, &voc), 800),
        cases("argument lists", lists(), 400),
        cases("texts", texts(if t { 4 } else { 3 }), 2000),
        cases("broken texts", broken(d), 800),
        spelled("inline tokens", PIECES.len(), 3, PLAIN, 1000),
        spelled("inline tokens within", PIECES.len(), 3, WITHIN, 1000),
        spelled("fewer inline tokens", if t { 16 } else { 9 }, 4, PLAIN, 1000),
    ];
    Check {
        property: "C19",
        level: "exploration",
        rule: "every program of the listed spaces is given to the real compiler: each with a misuse must be refused at its own line, each corrected one accepted; for literals without arguments the macro must refuse exactly the texts the runtime parser refuses; inline calls over every sequence of pieces that are accepted must spell CSS, have its meaning and be accepted by the parser".into(),
        bounds: format!("tier {tier:?}: {} inline misuses and {} forms of values without text at every place of contexts nested up to {d} with every kind of neighbour before and after; sheets up to {} nodes with every set of up to three placeholders and every argument left out, renamed, added or doubled; texts up to {} tokens; sequences of up to 3 of {} pieces of inline CSS, bare and in {} contexts", INLINE.len(), SILENT.len() + SILENT_LITERAL.len(), if t { 3 } else { 2 }, if t { 4 } else { 3 }, PIECES.len(), WITHIN.len()),
        assumptions: vec!["which texts are CSS is the runtime parser's decision (checked by C01)".into()],
        spaces,
    }
}
