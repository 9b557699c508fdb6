//! C02 (layouts and atoms), C03 (scoping), C04 (structure), C05 (global), C06 (fixpoint).
use crate::common::*;
use mck::css::{flatten, show};
use mck::driver::*;
use mck::enumr::*;
use mck::model::*;
use mck::refparse::{self, Ref};
use std::rc::Rc;
use stylist::ast::Sheet as Ast;
use stylist::manager::{render_static, StyleManager};
use stylist::{GlobalStyle, Style};

fn v(s: &[&str]) -> Vec<String> {
    s.iter().map(|m| m.to_string()).collect()
}

/// A lazily enumerated list of model sheets.
#[derive(Clone)]
pub struct Sheets(pub Rc<Vec<Sheet>>);

pub fn rich_vocab() -> Vocab {
    Vocab {
        sels: vec![v(&[".s"]), v(&["a:hover", "&:not(.b, c)"])],
        conds: v(&["@media x", "@supports (a: b)"]),
        keyframes: true,
        max_depth: 3,
    }
}
pub fn lean_vocab() -> Vocab {
    Vocab {
        sels: vec![v(&[".s"])],
        conds: v(&["@media x"]),
        keyframes: true,
        max_depth: 6,
    }
}

fn sheet_list(max: usize, voc: &Vocab) -> Sheets {
    Sheets(Rc::new(sheets(max, voc)))
}

/// A case per sheet.
fn per_sheet(name: &str, l: &Sheets, f: impl Fn(&Sheet, &mut Rec) + 'static) -> Space {
    let (a, b) = (l.clone(), l.clone());
    Space::new(name, l.0.len() as u64, move |i, rec| f(&a.0[i as usize], rec), move |i| text(&b.0[i as usize]))
}

pub fn must_parse(css: &str, rec: &mut Rec) -> Option<Ast> {
    match css.parse::<Ast>() {
        Ok(s) => Some(s),
        Err(e) => {
            rec.violation("refused", format!("{css:?} was refused\n{e}"));
            None
        }
    }
}

fn check_meaning(css: &str, m: &Sheet, rec: &mut Rec) -> Option<Ast> {
    rec.eval();
    let s = must_parse(css, rec)?;
    for class in [Some("C"), None] {
        if let Err(e) = compare(&render(&s, class), &expand(m, class)) {
            rec.violation(format!("meaning {}", class.is_some()), format!("source {css:?}\n{e}"));
        }
    }
    Some(s)
}

// ---------------------------------------------------------------- C02

const KEYS: &[&str] = &["color", "--x", "-webkit-a", "_y", "K", "é-ö", "a1", "--", "x--y", "a_b", "--a_b-C1_"];
const VALS: &[&str] = &[
    "1px", "#fff", "\"\"", "\"a;b}c{d:e\"", "\"\\\"\"", "\"\\\\\"", "'x;y'", "'\"'", "\"'\"", "'\\''", "url(http://a/b?c=d)",
    "url(\"a b\")", "url(data:image/png;base64,AA==)", "rgb(0, 1, 2)", "var(--x, 1px)", "calc(1px + (2px * 3))", "a, b, c",
    "-1.5em", "+.5", "50%", "!important", "a !important", "U+26", "[a] 1fr [b]", "a/b", "a / b", "é", "日本", "\"日本\"", "1 2 3 4",
    "\\66oo", "@x", "a:b", "a@b.c", "*", "<a>", "\"/* no comment */\"", "\"//\"", "//", "f()", "f(g(h(i)), [j])", "~=|", "\"${x}\"", "\"&\"",
];
const SELS: &[&str] = &[
    ".a", "#a", "a", "*", ":hover", "::before", "&", "&.b", "& > b", ":root", "a b", "a>b", "a + b", "a~b", ".a.b", "a:hover", "a:not(.b)",
    ":not(.b, .c)", "a:is(b, c:where(d, e))", "[a]", "[a=b]", "[a=\"b\"]", "[a=\"b,c\"]", "[a='b,c']", "[a=\"{}\"]", "[a=\"}\"]", "[a=\";\"]",
    "[a=\"&\"]", "[a=':root']", "[a$=\"b\"]", "[a^='b'][c*=\"d\"]", "[a=\"\\\"\"]", ":nth-child(2n + 1)", "a|b", "é", ".日本", ".a\\:b", ".\\31 a", ".a\\,b",
    "&::after", "&&", "&:hover &", ":hover &", "b &", ":host(.a)", ".-a", "._a", ".a--b", "a:hover::before", "\u{1F600}",
];
/// Further selectors for the scoping rules.
const MORE_SELS: &[&str] = &[
    "::part(x)", "::slotted(a)", "::-webkit-scrollbar", ":first-child", ":nth-child(2n+1)", ":not(:hover)", ":is(&, a)", "&::part(x)", "&:not(&.b)",
    ":root:hover", ":root .a", "html:root", ":hover:root", "::before:hover", ":focus-within a", "::selection", ":lang(en)", "a::after", "& &", "& + &",
    "&[a=b]", "&#i", "&:is(:root)", ".a &", ".a:root", ":has(> a)", ":host", ":host-context(.x)", "::cue", ":-moz-any(a)",
];
const CONDS: &[&str] = &[
    "@media screen", "@media (a: b)", "@media screen and (max-width: 500px)", "@media not all, print and (color)", "@media (1px <= width <= 2px)",
    "@media only screen   and (a)", "@supports (display: grid)", "@supports not (a: b)", "@supports (a: b) and ((c: d) or (e: f))",
    "@supports selector(a > b)", "@supports (content: \"{\")", "@supports (a: \"}\")", "@container (width > 1px)", "@container n (w: 1) and style(--a: b)", "@media x/y", "@media é",
];
const FRAMES: &[&str] = &["from", "to", "0%", "33.3%", "100%", "FROM"];
const KFNAMES: &[&str] = &["a", "-a", "a-b_c", "é", "\"x\"", "A1"];

/// Sheets that put one atom (or two) in each role, in several surroundings.
pub fn atom_sheets() -> Vec<Sheet> {
    let d = |k: &str, val: &str| decl(k, val);
    let mut out: Vec<Sheet> = vec![];
    let mut around = |i: Item| {
        out.push(vec![i.clone()]);
        out.push(vec![Item::Decl(d("p", "q")), i.clone(), Item::Decl(d("r", "s"))]);
        out.push(vec![Item::Block(v(&["x"]), vec![BItem::Decl(d("p", "q"))]), i.clone(), Item::Block(v(&["y"]), vec![])]);
        out.push(vec![Item::At("@media y".into(), vec![i.clone()])]);
        out.push(vec![Item::At("@media y".into(), vec![Item::At("@supports (z: w)".into(), vec![i.clone(), i.clone()])])]);
        out.push(vec![i.clone(), i]);
    };
    for k in KEYS {
        around(Item::Decl(d(k, "b")));
        around(Item::Block(v(&["x"]), vec![BItem::Decl(d(k, "b")), BItem::Decl(d("c", "d"))]));
    }
    for (i, a) in VALS.iter().enumerate() {
        around(Item::Decl(d("a", a)));
        around(Item::Block(v(&["x"]), vec![BItem::Decl(d("a", a))]));
        around(Item::Block(v(&["x"]), vec![BItem::At("@media y".into(), vec![BItem::Decl(d("a", a))]), BItem::Decl(d("a", a))]));
        around(Item::Keyframes("k".into(), vec![Frame { cond: v(&["from"]), decls: vec![d("a", a), d("b", "c")] }]));
        for b in &VALS[i..] {
            around(Item::Decl(d("a", &format!("{a} {b}"))));
            around(Item::Block(v(&["x"]), vec![BItem::Decl(d("a", a)), BItem::Decl(d("b", b))]));
        }
    }
    for a in SELS {
        for b in SELS {
            around(Item::Block(v(&[a, b]), vec![BItem::Decl(d("c", "d"))]));
        }
        around(Item::Block(v(&[a]), vec![BItem::Decl(d("c", "d"))]));
        around(Item::Block(v(&[a]), vec![]));
        around(Item::Block(v(&[a]), vec![BItem::At("@media y".into(), vec![BItem::Decl(d("c", "d"))])]));
        around(Item::Block(v(&[a, "b", a]), vec![BItem::Decl(d("c", "\"e\""))]));
    }
    for a in CONDS {
        around(Item::At(a.to_string(), vec![Item::Decl(d("a", "b"))]));
        around(Item::At(a.to_string(), vec![]));
        around(Item::At(a.to_string(), vec![Item::Block(v(&["x", ":hover"]), vec![BItem::Decl(d("a", "b"))])]));
        around(Item::Block(v(&["x"]), vec![BItem::At(a.to_string(), vec![BItem::Decl(d("a", "b"))])]));
        for b in CONDS {
            around(Item::At(a.to_string(), vec![Item::At(b.to_string(), vec![Item::Decl(d("a", "b"))]), Item::Decl(d("c", "d"))]));
            around(Item::Block(
                v(&["x"]),
                vec![BItem::At(a.to_string(), vec![BItem::At(b.to_string(), vec![BItem::Decl(d("a", "b"))])]), BItem::Decl(d("c", "d"))],
            ));
        }
    }
    for n in KFNAMES {
        for a in FRAMES {
            for b in FRAMES {
                around(Item::Keyframes(
                    n.to_string(),
                    vec![
                        Frame { cond: v(&[a]), decls: vec![d("a", "b")] },
                        Frame { cond: v(&[a, b]), decls: vec![d("c", "d"), d("e", "f")] },
                    ],
                ));
            }
        }
        around(Item::Keyframes(n.to_string(), vec![]));
    }
    out
}

const ROLE_TOKENS: &[&str] = &[
    "a", "1", "-", ".", " ", "\\ ", "\\;", "\\}", "\\\"", "\\,", "\\&", "\"s;}\"", "'{\"'", "(;)", "[,]", "f(:)", "(\\))", ",", ":", "!", "#", "@", "*", "/", "%", "é", "\u{a0}", "+", ">",
    "=", "&", "\\\\", "\\é",
];
/// What stands around the sequence in each role.
const ROLES: &[(&str, &str)] = &[
    ("a:", ";"),
    ("x{a:", "}"),
    ("x{p:q;@media y{a:", ";b:c}d:e;}"),
    ("@keyframes k{from{a:", "}to{b:c}}"),
    ("", "{b:c}"),
    ("p:q;x,", ",y{b:c;@media z{d:e}}"),
    ("@media z{p:q;", "{b:c}r:s;}"),
    ("@media ", "{b:c;}"),
    ("x{p:q;@supports ", "{b:c}}"),
    ("@keyframes ", "{from{b:c}}"),
    ("@keyframes k{", "{b:c}}"),
    ("x{b", ":c}"),
];

/// Every sequence of tokens in every role, as far as it is in the supported grammar there.
fn role_space(len: u32, f: impl Fn(&str, &Sheet, &mut Rec) + 'static) -> Space {
    let k = ROLE_TOKENS.len() as u64;
    let nr = ROLES.len() as u64;
    let dec = move |i: u64| {
        let (pre, post) = ROLES[(i % nr) as usize];
        let mut s = pre.to_string();
        for t in seq_decode(i / nr, k, 1, len) {
            s.push_str(ROLE_TOKENS[t]);
        }
        s.push_str(post);
        s
    };
    Space::new(
        "token sequences in each role",
        seq_count(k, 1, len) * nr,
        move |i, rec| {
            let css = dec(i);
            match refparse::parse(&css) {
                Ref::Must(m) => f(&css, &m, rec),
                Ref::May(m, _) if css.parse::<Ast>().is_ok() => f(&css, &m, rec),
                _ => rec.count("outside the supported grammar"),
            }
        },
        move |i| dec(i),
    )
    .chunked(50_000)
}

fn layouts(m: &Sheet, two: bool, rec: &mut Rec) {
    let toks = tokens(m);
    let gs = gaps(&toks);
    let mut seen = std::collections::HashSet::new();
    let mut go = |css: String, rec: &mut Rec| {
        if seen.insert(hash64(css.as_bytes())) {
            rec.distinct(&css);
            check_meaning(&css, m, rec);
        }
    };
    for base in 0..ANY.len() {
        go(text_with(&toks, base, &[]), rec);
    }
    for base in [0, 1] {
        for i in 0..gs.len() {
            for c in 0..gap_choices(gs[i]) {
                go(text_with(&toks, base, &[(i, c)]), rec);
                if two {
                    for j in i + 1..gs.len() {
                        for e in 0..gap_choices(gs[j]) {
                            go(text_with(&toks, base, &[(i, c), (j, e)]), rec);
                        }
                    }
                }
            }
        }
    }
    rec.sample(|| text_with(&toks, 2, &[]));
}

pub fn c02(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let rich = sheet_list(if t { 4 } else { 3 }, &rich_vocab());
    let lean = sheet_list(if t { 6 } else { 5 }, &lean_vocab());
    let small = sheet_list(if t { 3 } else { 2 }, &rich_vocab());
    let atoms = Sheets(Rc::new(atom_sheets()));
    Check {
        property: "C02",
        level: "exploration",
        rule: "every derivation of the grammar up to the node bound under every layout with at most one (two for the small ones) gap deviating from the minified and from the spaced layout, plus the uniform layouts; every atom and pair of atoms in every role and surrounding; non-trivial and distinct by the text parsed".into(),
        bounds: format!("derivations: rich vocabulary <= {} nodes, lean vocabulary <= {} nodes, two deviations <= {} nodes; {} atom sheets x {} uniform layouts; token sequences <= {} of {} in {} roles", if t {4} else {3}, if t {6} else {5}, if t {3} else {2}, atoms.0.len(), ANY.len(), if t {3} else {2}, ROLE_TOKENS.len(), ROLES.len()),
        assumptions: vec!["comments are placed between tokens only, not inside values or at-rule conditions".into()],
        spaces: vec![
            per_sheet("rich derivations x layouts", &rich, |m, rec| layouts(m, false, rec)).chunked(200),
            per_sheet("lean derivations x layouts", &lean, |m, rec| layouts(m, false, rec)).chunked(200),
            per_sheet("small derivations x layout pairs", &small, |m, rec| layouts(m, true, rec)).chunked(20),
            per_sheet("one big dimension x uniform layouts", &big_shapes(t, 66), |m, rec| {
                let toks = tokens(m);
                for base in 0..ANY.len() {
                    let css = text_with(&toks, base, &[]);
                    rec.distinct(&css);
                    check_meaning(&css, m, rec);
                }
            })
            .chunked(20),
            per_sheet("atoms x uniform layouts", &atoms, |m, rec| {
                let toks = tokens(m);
                for base in 0..ANY.len() {
                    let css = text_with(&toks, base, &[]);
                    rec.distinct(&css);
                    check_meaning(&css, m, rec);
                }
                rec.sample(|| text_with(&toks, 0, &[]));
            }),
            role_space(if t { 3 } else { 2 }, |css, m, rec| {
                rec.distinct(css);
                check_meaning(css, m, rec);
                let toks = tokens(m);
                for base in 0..ANY.len() {
                    let css = text_with(&toks, base, &[]);
                    rec.distinct(&css);
                    check_meaning(&css, m, rec);
                }
                rec.sample(|| css.to_string());
            }),
        ],
    }
}

// ---------------------------------------------------------------- C03

const SEL_TOKENS: &[&str] = &[
    "&", ":root", ".a", "b", ":hover", "::before", " ", ">", "[t=\"a&b\"]", "[t=':root']", ":not(&, .c)", "*", "\\&", "#i", "/*&*/", ":is(:root, d)", "(&)",
];

fn sel_seq(i: u64, hi: u32) -> Option<String> {
    let s: String = seq_decode(i, SEL_TOKENS.len() as u64, 1, hi).into_iter().map(|t| SEL_TOKENS[t]).collect();
    // A selector is trimmed; sequences that start or end with white space duplicate others.
    if s.trim() != s || s.starts_with("/*") || s.ends_with("*/") {
        return None;
    }
    Some(s)
}

/// The selector list in each position a block can have.
fn positions(l: &[String]) -> Vec<Sheet> {
    let b = || Item::Block(l.to_vec(), vec![BItem::Decl(decl("k0", "v0"))]);
    vec![
        vec![b()],
        vec![Item::Decl(decl("p", "q")), b(), Item::Decl(decl("r", "s"))],
        vec![Item::At("@media x".into(), vec![Item::Decl(decl("p", "q")), b()])],
        vec![Item::At("@media x".into(), vec![Item::At("@supports (y: z)".into(), vec![b(), b()])]), b()],
        vec![Item::Block(
            l.to_vec(),
            vec![
                BItem::Decl(decl("p", "q")),
                BItem::At("@media x".into(), vec![BItem::Decl(decl("k0", "v0"))]),
                BItem::Decl(decl("r", "s")),
            ],
        )],
    ]
}

fn scoped(m: &Sheet, prefix: &str, rec: &mut Rec) {
    scoped_text(&text(m), m, prefix, rec)
}

fn scoped_text(css: &str, m: &Sheet, prefix: &str, rec: &mut Rec) {
    rec.eval();
    rec.distinct(css);
    let mgr = StyleManager::builder().build().expect("manager");
    match Style::create_with_manager(prefix.to_string(), css, mgr) {
        Err(e) => rec.violation("refused", format!("{css:?} was refused\n{e}")),
        Ok(st) => {
            let class = st.get_class_name().to_string();
            rec.sample(|| format!("{css} => {}", st.get_style_str().replace(&class, "C")));
            if let Err(e) = compare(st.get_style_str(), &expand(m, Some(&class))) {
                rec.violation("scoping", format!("source {css:?}\n{e}"))
            }
        }
    }
}

pub fn c03(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let k = SEL_TOKENS.len() as u64;
    let l1 = if t { 5 } else { 4 };
    let l2 = if t { 3 } else { 2 };
    let one = move |i: u64| sel_seq(i, l1);
    let (n2, n1) = (seq_count(k, 1, l2), seq_count(k, 1, 2));
    let pair = move |i: u64| {
        let mut d = Digits(i);
        let swap = d.take(2) == 1;
        let (a, b) = (sel_seq(d.take(n2 as usize) as u64, l2)?, sel_seq(d.take(n1 as usize) as u64, 2)?);
        Some(if swap { vec![b, a] } else { vec![a, b] })
    };
    let np1: u64 = if t { 2 } else { 5 };
    let triple = move |i: u64| {
        let mut d = Digits(i);
        let mut o = vec![];
        for _ in 0..3 {
            o.push(sel_seq(d.take(k as usize) as u64, 1)?);
        }
        Some(o)
    };
    let prefixes: &[&str] = &["stylist", "a-b", "_x1", "é", "A"];
    let run = move |l: Option<Vec<String>>, pos: usize, prefix: &str, rec: &mut Rec| {
        if let Some(l) = l {
            scoped(&positions(&l)[pos], prefix, rec)
        }
    };
    let mut spaces = vec![];
    spaces.push(
        Space::new(
            "one selector x position",
            seq_count(k, 1, l1) * np1,
            move |i, rec| run(one(i / np1).map(|m| vec![m]), if np1 == 5 { i % 5 } else { [1, 4][(i % 2) as usize] } as usize, "stylist", rec),
            move |i| format!("{:?}", one(i / np1)),
        )
        .chunked(100_000),
    );
    spaces.push(
        Space::new(
            "selector pairs x position",
            2 * n2 * n1 * 3,
            move |i, rec| run(pair(i / 3), [0, 2, 4][(i % 3) as usize], "stylist", rec),
            move |i| format!("{:?}", pair(i / 3)),
        )
        .chunked(100_000),
    );
    spaces.push(Space::new(
        "selector triples",
        k * k * k,
        move |i, rec| run(triple(i), 0, "stylist", rec),
        move |i| format!("{:?}", triple(i)),
    ));
    let atoms: Rc<Vec<String>> = Rc::new(SELS.iter().chain(MORE_SELS).map(|m| m.to_string()).collect());
    let na = atoms.len() as u64;
    let (at, at2) = (atoms.clone(), atoms.clone());
    let list = move |at: &[String], i: u64| {
        let (a, b) = (&at[(i % na) as usize], &at[(i / na % na) as usize]);
        match i / na / na {
            0 => vec![a.clone()],
            1 => vec![a.clone(), b.clone()],
            n => vec![format!("{a}{}{b}", [" ", ">", " + ", "~", ""][n as usize - 2])],
        }
    };
    spaces.push(
        Space::new(
            "atom selectors: alone, in pairs and combined",
            na * na * 7 * 2,
            move |i, rec| {
                let l = list(&at, i / 2);
                if i / 2 / na / na == 0 && i / 2 / na % na != 0 {
                    return;
                }
                // Adjacent compounds have to stay one selector.
                if i / 2 / na / na == 6 && !["[", ".", "#", ":"].iter().any(|m| at[(i / 2 / na % na) as usize].starts_with(m)) {
                    return;
                }
                run(Some(l), [0, 4][(i % 2) as usize], "stylist", rec)
            },
            move |i| format!("{:?}", list(&at2, i / 2)),
        )
        .chunked(20_000),
    );
    // What is a string, an escape or a comment decides what is replaced.
    let lexical = ["&", "\"", "'", "\\", "/*", "*/", "a", ":root", "*"];
    let around = [("", "{k0:v0}"), ("x[h=", "]&{k0:v0}"), ("p:q;& ", ",:root,b{k0:v0}"), ("@media y{:not(", ")&{k0:v0}}")];
    let ll = if t { 6 } else { 5 };
    let lex = move |i: u64| {
        let (a, b) = around[(i % around.len() as u64) as usize];
        format!("{a}{}{b}", seq_decode(i / around.len() as u64, lexical.len() as u64, 1, ll).into_iter().map(|t| lexical[t]).collect::<String>())
    };
    spaces.push(
        Space::new(
            "strings, escapes and comments",
            seq_count(lexical.len() as u64, 1, ll) * around.len() as u64,
            move |i, rec| {
                let css = lex(i);
                match refparse::parse(&css) {
                    Ref::Must(m) => scoped_text(&css, &m, "stylist", rec),
                    Ref::May(m, _) if css.parse::<Ast>().is_ok() => scoped_text(&css, &m, "stylist", rec),
                    _ => rec.count("outside the supported grammar"),
                }
            },
            lex,
        )
        .chunked(50_000),
    );
    let long = |i: u64| {
        let atoms = ["&", "b", ":hover", ".a &", ":root b"];
        let (n, k) = (1 + i / 5 % 40, i % 5);
        (0..n).map(|j| if j == n - 1 { "last".to_string() } else { format!("{}{}", atoms[((j + k) % 5) as usize], if j % 2 == 0 { "".to_string() } else { format!(".n{j}") }) }).collect::<Vec<_>>()
    };
    spaces.push(Space::new("long lists", 40 * 5 * 5, move |i, rec| run(Some(long(i / 5)), (i % 5) as usize, "stylist", rec), move |i| format!("{:?}", long(i / 5))));
    let np = prefixes.len() as u64;
    spaces.push(Space::new(
        "prefixes",
        np * k * k * 5,
        move |i, rec| {
            let mut d = Digits(i);
            let p = prefixes[d.take(np as usize)];
            let pos = d.take(5);
            let a = sel_seq(d.take(k as usize) as u64, 1);
            let b = sel_seq(d.take(k as usize) as u64, 1);
            run(a.and_then(|a| b.map(|b| vec![a, b])), pos, p, rec)
        },
        move |i| format!("prefix case {i}"),
    ));
    Check {
        property: "C03",
        level: "exploration",
        rule: "every selector that is a sequence of selector tokens up to the bound, alone and in lists of two and three, at five positions in a sheet, created as a style and its CSS compared with the documented rewriting; distinct by source text".into(),
        bounds: format!("selectors of <= {l1} of {k} tokens; pairs of a selector of <= {l2} and one of <= 2 tokens in both orders; triples of single tokens; lists of up to 40; <= {ll} of 9 quotes, backslashes, comment marks and patterns in 4 surroundings; 5 class prefixes"),
        assumptions: vec!["':root' is matched as text outside strings, comments and escapes, as documented; identifiers that merely begin with 'root' after a colon are not generated".into()],
        spaces,
    }
}

// ---------------------------------------------------------------- C04

fn structure(m: &Sheet, rec: &mut Rec) {
    structure_of(&text(m), m, rec)
}

fn structure_of(css: &str, m: &Sheet, rec: &mut Rec) {
    rec.distinct(css);
    if let Some(s) = check_meaning(css, m, rec) {
        for class in [Some("C"), None] {
            let a = render(&s, class);
            let b = render(&s.clone(), class);
            if a != b {
                rec.violation("unstable", format!("rendering {css:?} twice gave different text:\n{a}\n---\n{b}"));
            }
            rec.sample(|| format!("{css} => {a}"));
        }
    }
}

/// One dimension at a time, up to sizes far beyond what the other spaces reach.
pub fn big_shapes(t: bool, depth: usize) -> Sheets {
    let mut sizes: Vec<usize> = (1..=if t { 140 } else { 40 }).collect();
    sizes.extend([63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257]);
    if t {
        sizes.extend([511, 512, 513, 999, 1000, 1001, 4096]);
    }
    sizes.sort();
    sizes.dedup();
    let mut out: Vec<Sheet> = vec![];
    for n in sizes {
        let d = |i: usize| decl(&format!("k{i}"), &format!("v{i}"));
        let b = |i: usize| Item::Block(vec![format!(".s{}", i % 7)], vec![BItem::Decl(d(i))]);
        let at = |i: usize| format!("@{} (a: {i})", ["media", "supports", "container"][i % 3]);
        let all = 0..n;
        let mut kinds: Vec<Sheet> = vec![
            all.clone().map(|i| Item::Decl(d(i))).collect(),
            all.clone().map(b).collect(),
            all.clone().map(|i| Item::At(at(i), vec![Item::Decl(d(i))])).collect(),
            all.clone().map(|i| Item::Keyframes(format!("f{i}"), vec![Frame { cond: v(&["from"]), decls: vec![d(i)] }])).collect(),
            // Mixed.
            all.clone().map(|i| if i % 2 == 0 { Item::Decl(d(i)) } else { b(i) }).collect(),
            // Inside one block, one rule, one animation.
            vec![Item::Block(v(&[".t"]), all.clone().map(|i| BItem::Decl(d(i))).collect())],
            vec![Item::Block(v(&[".t"]), all.clone().map(|i| BItem::At(at(i), vec![BItem::Decl(d(i))])).collect())],
            vec![Item::Block(v(&[".t"]), all.clone().map(|i| if i % 2 == 0 { BItem::Decl(d(i)) } else { BItem::At(at(i), vec![BItem::Decl(d(i))]) }).collect())],
            vec![Item::At("@media y".into(), all.clone().map(b).collect())],
            vec![Item::At("@media y".into(), all.clone().map(|i| Item::Decl(d(i))).collect())],
            vec![Item::At("@media y".into(), all.clone().map(|i| Item::At(at(i), vec![b(i)])).collect())],
            vec![Item::Keyframes("f".into(), all.clone().map(|i| Frame { cond: vec![format!("{i}%")], decls: vec![d(i)] }).collect())],
            vec![Item::Keyframes("f".into(), vec![Frame { cond: v(&["from"]), decls: all.clone().map(d).collect() }])],
            vec![Item::Keyframes("f".into(), vec![Frame { cond: all.clone().map(|i| format!("{i}%")).collect(), decls: vec![d(0)] }])],
            // Long texts.
            vec![Item::Decl(decl(&"k".repeat(n), "v"))],
            vec![Item::Decl(decl("k", &"v".repeat(n)))],
            vec![Item::Decl(decl("k", &vec!["v"; n].join(" ")))],
            vec![Item::Decl(decl("k", &format!("\"{}\"", "{".repeat(n))))],
            vec![Item::Block(vec![format!(".{}", "s".repeat(n))], vec![BItem::Decl(d(0))])],
            vec![Item::Block(vec![format!("{} > &", vec!["a"; n].join(" > "))], vec![BItem::Decl(d(0))])],
            vec![Item::Block(vec![vec!["&"; n].join(" + ")], vec![BItem::Decl(d(0))])],
            vec![Item::At(format!("@media {}", vec!["(a: b)"; n].join(" and ")), vec![Item::Decl(d(0))])],
        ];
        // Depth.
        if n <= depth {
            let mut inner = vec![Item::Decl(d(n)), b(n + 1)];
            let mut inside = vec![BItem::Decl(d(n))];
            for i in 0..n {
                inner = vec![Item::Decl(d(i)), Item::At(at(i), inner)];
                inside = vec![BItem::At(at(i), inside), BItem::Decl(d(i))];
            }
            kinds.push(inner);
            kinds.push(vec![Item::Block(v(&[".t"]), inside)]);
        }
        for mut k in kinds {
            out.push(k.clone());
            k.push(Item::Block(v(&["z"]), vec![BItem::Decl(decl("r", "s"))]));
            out.push(k);
        }
    }
    Sheets(Rc::new(out))
}

/// Deep and wide shapes beyond the exhaustive node bound: every nesting pattern of at-rules and
/// where each level puts its declarations.
fn shapes() -> Sheets {
    let mut out = vec![];
    let conds = ["@media a", "@supports (b: c)", "@container d"];
    // Nested at-rules of depth 1..=6; at each level a declaration before, after, both or none.
    for depth in 1..=6usize {
        for mask in 0..4usize.pow(depth as u32) {
            for inside in [false, true] {
                let mut n = 0;
                let mut d = || {
                    n += 1;
                    decl(&format!("k{n}"), "v")
                };
                let mut inner: Vec<BItem> = vec![];
                let mut m = mask;
                for l in 0..depth {
                    let mut body = vec![];
                    if m % 4 & 1 != 0 {
                        body.push(BItem::Decl(d()));
                    }
                    body.extend(inner);
                    if m % 4 & 2 != 0 {
                        body.push(BItem::Decl(d()));
                    }
                    m /= 4;
                    inner = vec![BItem::At(conds[l % 3].to_string(), body)];
                }
                if inside {
                    out.push(vec![Item::Block(v(&[".s"]), inner)]);
                } else {
                    fn lift(b: Vec<BItem>) -> Vec<Item> {
                        b.into_iter()
                            .map(|i| match i {
                                BItem::Decl(d) => Item::Decl(d),
                                BItem::At(c, v) => Item::At(c, lift(v)),
                            })
                            .collect()
                    }
                    out.push(lift(inner));
                }
            }
        }
    }
    // n siblings of one kind between two others.
    for n in 0..=24usize {
        for kind in 0..4 {
            let mk = |i: usize| -> Item {
                match kind {
                    0 => Item::Decl(decl(&format!("k{i}"), "v")),
                    1 => Item::Block(v(&[".s"]), vec![BItem::Decl(decl(&format!("k{i}"), "v"))]),
                    2 => Item::At("@media x".into(), vec![Item::Decl(decl(&format!("k{i}"), "v"))]),
                    _ => Item::Keyframes(format!("f{i}"), vec![Frame { cond: v(&["from"]), decls: vec![decl("k", "v")] }]),
                }
            };
            let mut s: Sheet = vec![Item::Decl(decl("p", "q"))];
            s.extend((0..n).map(mk));
            s.push(Item::Block(v(&["z"]), vec![BItem::Decl(decl("r", "s"))]));
            out.push(s.clone());
            out.push(vec![Item::At("@media y".into(), s)]);
        }
    }
    Sheets(Rc::new(out))
}

/// Trees of the public AST that only macros and hand-written code build: blocks inside at-rules
/// inside blocks, and blocks without a selector of their own at every level.
#[derive(Clone)]
enum R {
    Attr,
    /// Selector list (empty: the surrounding one).
    Block(usize, Vec<R>),
    Rule(usize, Vec<R>),
}
const R_SELS: &[&[&str]] = &[&[], &[".s"], &["a:hover", "&.t"]];
const R_CONDS: &[&str] = &["@media x", "@supports (a: b)"];

fn r_seqs(n: usize, in_block: bool, depth: usize) -> Vec<Vec<R>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..=n {
        let tails = r_seqs(n - k, in_block, depth);
        for h in r_node(k, in_block, depth) {
            for t in &tails {
                let mut v = vec![h.clone()];
                v.extend(t.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}
fn r_node(n: usize, in_block: bool, depth: usize) -> Vec<R> {
    let mut out = vec![];
    if n == 1 && in_block {
        out.push(R::Attr);
    }
    for body in r_seqs(n - 1, true, depth + 1) {
        // Blocks with a selector inside blocks are not supported.
        for s in 0..if in_block { 1 } else { R_SELS.len() } {
            if !in_block || depth > 1 {
                out.push(R::Block(s, body.clone()));
            }
        }
    }
    if depth < 4 {
        for body in r_seqs(n - 1, in_block, depth + 1) {
            for c in 0..R_CONDS.len() {
                out.push(R::Rule(c, body.clone()));
            }
        }
    }
    out
}

fn r_ast(v: &[R], n: &mut usize) -> Vec<stylist::ast::RuleBlockContent> {
    use stylist::ast::*;
    v.iter()
        .map(|r| match r {
            R::Attr => {
                *n += 1;
                RuleBlockContent::StyleAttr(StyleAttribute { key: format!("k{n}").into(), value: vec![format!("v{n}").into()].into() })
            }
            R::Block(s, b) => RuleBlockContent::Block(r_block(*s, b, n).into()),
            R::Rule(c, b) => RuleBlockContent::Rule(r_rule(*c, b, n).into()),
        })
        .collect()
}
fn r_block(s: usize, b: &[R], n: &mut usize) -> stylist::ast::Block {
    let sels: Vec<stylist::ast::Selector> = R_SELS[s].iter().map(|m| vec![m.to_string().into()].into()).collect();
    stylist::ast::Block { condition: sels.into(), content: r_ast(b, n).into() }
}
fn r_rule(c: usize, b: &[R], n: &mut usize) -> stylist::ast::Rule {
    stylist::ast::Rule { condition: vec![R_CONDS[c].to_string().into()].into(), content: r_ast(b, n).into() }
}
fn r_sheet(v: &[R]) -> Ast {
    use stylist::ast::ScopeContent;
    let mut n = 0;
    v.iter()
        .map(|r| match r {
            R::Block(s, b) => ScopeContent::Block(r_block(*s, b, &mut n)),
            R::Rule(c, b) => ScopeContent::Rule(r_rule(*c, b, &mut n)),
            R::Attr => unreachable!(),
        })
        .collect::<Vec<_>>()
        .into()
}
fn r_flat(v: &[R], chain: &[String], sel: &[String], class: Option<&str>, n: &mut usize, out: &mut Vec<mck::css::Flat>) {
    for r in v {
        match r {
            R::Attr => {
                *n += 1;
                out.push(mck::css::Flat::Decl { chain: chain.to_vec(), sel: sel.to_vec(), key: format!("k{n}"), val: format!("v{n}") });
            }
            R::Block(0, b) => r_flat(b, chain, sel, class, n, out),
            R::Block(s, b) => r_flat(b, chain, &scope_list(&v_(R_SELS[*s]), class), class, n, out),
            R::Rule(c, b) => {
                let mut ch = chain.to_vec();
                ch.push(mck::css::norm(R_CONDS[*c]));
                r_flat(b, &ch, sel, class, n, out)
            }
        }
    }
}
fn v_(s: &[&str]) -> Vec<String> {
    v(s)
}
fn raw_trees(max: usize) -> Space {
    let all: Rc<Vec<Vec<R>>> = Rc::new((0..=max).flat_map(|n| r_seqs(n, false, 0)).collect());
    let a2 = all.clone();
    Space::new(
        "trees of the public AST",
        all.len() as u64,
        move |i, rec| {
            rec.eval();
            let tree = &all[i as usize];
            let s = r_sheet(tree);
            for class in [Some("C"), None] {
                let mut want = vec![];
                let root = [class.map(|c| format!(".{c}")).unwrap_or(":root".into())];
                r_flat(tree, &[], &root, class, &mut 0, &mut want);
                let css = render(&s, class);
                rec.distinct(&css);
                rec.sample(|| css.clone());
                if let Err(e) = compare(&css, &want) {
                    rec.violation(format!("structure {}", class.is_some()), format!("sheet {s:?}\n{e}"));
                }
            }
        },
        move |i| format!("{:?}", r_sheet(&a2[i as usize])),
    )
    .chunked(20_000)
}

pub fn c04(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let (a, b) = if t { (4, 7) } else { (4, 6) };
    let rich = sheet_list(a, &rich_vocab());
    let lean = sheet_list(b, &lean_vocab());
    Check {
        property: "C04",
        level: "exploration",
        rule: "every sheet tree up to the node bound plus every nesting pattern up to depth 6 and sibling runs up to 24; every declaration has its own key, so loss, duplication, reordering and misplacement all show; distinct by source text".into(),
        bounds: format!("rich vocabulary <= {a} nodes, lean vocabulary <= {b} nodes, trees of the public AST <= {} nodes; token sequences <= {} of {} in {} roles", if t { 6 } else { 5 }, if t { 4 } else { 3 }, ROLE_TOKENS.len(), ROLES.len()),
        assumptions: vec!["a block without a selector stands for the surrounding one; blocks with a selector inside blocks are not supported".into()],
        spaces: vec![
            per_sheet("rich trees", &rich, structure).chunked(100_000),
            per_sheet("lean trees", &lean, structure).chunked(100_000),
            per_sheet("deep and wide shapes", &shapes(), structure),
            per_sheet("one big dimension", &big_shapes(t, 66), structure).chunked(20),
            raw_trees(if t { 6 } else { 5 }),
            role_space(if t { 4 } else { 3 }, structure_of),
        ],
    }
}

// ---------------------------------------------------------------- C05

/// What an HTML parser gets from the text of a style element (raw text: nothing is decoded).
pub fn style_elements(markup: &str) -> Result<Vec<(String, String)>, String> {
    let mut out = vec![];
    let mut rest = markup;
    while !rest.is_empty() {
        let Some(r) = rest.strip_prefix("<style data-style=\"") else {
            return Err(format!("unexpected markup: {rest:?}"));
        };
        let Some((id, r)) = r.split_once("\">") else {
            return Err(format!("unterminated start tag: {rest:?}"));
        };
        // The end tag is the first "</style" followed by white space, '/' or '>'.
        let lower = r.to_ascii_lowercase();
        let mut at = 0;
        let end = loop {
            let Some(p) = lower[at..].find("</style") else {
                return Err("style element is never closed".into());
            };
            let p = at + p;
            match lower[p + 7..].chars().next() {
                Some(' ' | '\t' | '\n' | '\u{c}' | '\r' | '/' | '>') => break p,
                _ => at = p + 7,
            }
        };
        let Some(g) = r[end..].find('>') else {
            return Err("unterminated end tag".into());
        };
        out.push((id.to_string(), r[..end].to_string()));
        rest = &r[end + g + 1..];
    }
    Ok(out)
}

fn global(m: &Sheet, rec: &mut Rec) {
    global_of(&text(m), m, rec)
}

fn global_of(css: &str, m: &Sheet, rec: &mut Rec) {
    rec.eval();
    rec.distinct(css);
    let want = expand(m, None);
    let fail = |rec: &mut Rec, wh: &str, e: String| rec.violation(format!("global {wh}"), format!("{wh}, source {css:?}\n{e}"));
    let (w, r) = render_static();
    let server = StyleManager::builder().writer(w).build().expect("manager");
    let g = match GlobalStyle::new_with_manager(css, server.clone()) {
        Ok(g) => g,
        Err(e) => return fail(rec, "refused", e.to_string()),
    };
    let own = g.get_style_str().to_string();
    rec.sample(|| format!("{css} => {own}"));
    if let Err(e) = compare(&own, &want) {
        return fail(rec, "on creation", e);
    }
    let id = g.id().to_string();
    if own.contains(&id) {
        return fail(rec, "identifier in the CSS", own);
    }
    let data = r.read_style_data();
    let mut html = String::new();
    data.write_static_markup(&mut html).expect("markup");
    match style_elements(&html) {
        Ok(v) if v.len() == 1 && v[0].0 == id => {
            if let Err(e) = compare(&v[0].1, &want) {
                fail(rec, "in static markup", e)
            }
        }
        other => fail(rec, "static markup", format!("{other:?}")),
    }
    for ser in [false, true] {
        let data = if ser {
            serde_json::from_str(&serde_json::to_string(&data).expect("ser")).expect("de")
        } else {
            data.clone()
        };
        let client = StyleManager::builder().build().expect("manager");
        client.load_style_data(&data);
        match GlobalStyle::new_with_manager(css, client) {
            Ok(c) => {
                if c.id().to_string() != id {
                    fail(rec, "identifier after hydration", format!("{} instead of {id}", &**c.id()))
                }
                if let Err(e) = compare(c.get_style_str(), &want) {
                    fail(rec, "after hydration", e)
                }
            }
            Err(e) => fail(rec, "refused after hydration", e.to_string()),
        }
    }
}

pub fn c05(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let (a, b) = if t { (4, 7) } else { (3, 5) };
    let k = SEL_TOKENS.len() as u64;
    let l1 = if t { 4 } else { 3 };
    let one = move |i: u64| sel_seq(i, l1);
    let run = move |l: Option<Vec<String>>, pos: usize, rec: &mut Rec| {
        if let Some(l) = l {
            global(&positions(&l)[pos], rec)
        }
    };
    let n2 = k;
    let pair = move |i: u64| Some(vec![sel_seq(i % n2, 1)?, sel_seq(i / n2 % n2, 1)?]);
    Check {
        property: "C05",
        level: "exploration",
        rule: "every sheet tree up to the node bound and every selector up to the token bound at five positions, made a global style on a server manager; its CSS on creation, in the static markup and after loading the data (directly and serialized) compared with the unscoped meaning; distinct by source text".into(),
        bounds: format!("rich trees <= {a} nodes, lean trees <= {b} nodes, selectors <= {l1} of {k} tokens, selector pairs; token sequences <= {} of {} in {} roles", if t { 3 } else { 2 }, ROLE_TOKENS.len(), ROLES.len()),
        assumptions: vec![],
        spaces: vec![
            per_sheet("rich trees", &sheet_list(a, &rich_vocab()), global).chunked(20_000),
            per_sheet("lean trees", &sheet_list(b, &lean_vocab()), global).chunked(20_000),
            per_sheet("one big dimension", &big_shapes(t, 24), global).chunked(20),
            Space::new("one selector x position", seq_count(k, 1, l1) * 5, move |i, rec| run(one(i / 5).map(|m| vec![m]), (i % 5) as usize, rec), move |i| format!("{:?}", one(i / 5))).chunked(20_000),
            Space::new("selector pairs x position", n2 * n2 * 5, move |i, rec| run(pair(i / 5), (i % 5) as usize, rec), move |i| format!("{:?}", pair(i / 5))),
            role_space(if t { 3 } else { 2 }, global_of),
        ],
    }
}

// ---------------------------------------------------------------- C06

fn fixpoint_of(css: &str, s: &Ast, rec: &mut Rec) {
    // The meaning of the source, as far as it is in the supported grammar.
    let source = match refparse::parse(css) {
        Ref::Must(m) | Ref::May(m, _) => Some(m),
        _ => None,
    };
    for class in [Some("C-1"), None] {
        rec.eval();
        let out = render(s, class);
        let want = match (&source, flatten(&out)) {
            (Some(m), _) => expand(m, class),
            (None, Ok(f)) => f,
            (None, Err(_)) => {
                rec.count("output outside the reference grammar");
                continue;
            }
        };
        rec.distinct(&out);
        match out.parse::<Ast>() {
            Err(e) => rec.violation("reparse", format!("{css:?} is accepted but its CSS is not:\n{out}\n{e}")),
            Ok(s2) => {
                // The generated CSS stands for itself: as a global style it means the same.
                let out2 = render(&s2, None);
                match flatten(&out2) {
                    Ok(got) if got == want => {}
                    Ok(got) => rec.violation("drift", format!("{css:?} gave\n{out}\nwhich parses to\n{}\ninstead of\n{}", show(&got), show(&want))),
                    Err(e) => rec.violation("drift", format!("{css:?} gave\n{out}\nwhich re-renders malformed: {e}\n{out2}")),
                }
                match out2.parse::<Ast>() {
                    Ok(s3) => {
                        if s3 != s2 && render(&s3, None) != out2 {
                            rec.violation("fixpoint", format!("{css:?}: re-rendering is not a fixpoint\n{out2}\n---\n{}", render(&s3, None)))
                        }
                    }
                    Err(e) => rec.violation("reparse2", format!("{css:?}: second generation is refused\n{out2}\n{e}")),
                }
            }
        }
    }
}

fn debug_create(css: &str, rec: &mut Rec) {
    let mgr = StyleManager::builder().build().expect("manager");
    for g in [false, true] {
        let r = catch(|| {
            if g {
                GlobalStyle::new_with_manager(css, mgr.clone()).map(|_| ()).map_err(|e| e.to_string())
            } else {
                Style::new_with_manager(css, mgr.clone()).map(|_| ()).map_err(|e| e.to_string())
            }
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => rec.violation("create", format!("parsed, but creating a style from {css:?} failed: {e}")),
            Err(p) => rec.violation("create panic", format!("parsed, but creating a style (global: {g}) from {css:?} panicked: {p}")),
        }
    }
}

fn fixpoint(css: &str, rec: &mut Rec) {
    let Ok(s) = css.parse::<Ast>() else {
        rec.count("refused");
        return;
    };
    rec.sample(|| css.to_string());
    fixpoint_of(css, &s, rec);
    debug_create(css, rec);
}

pub fn c06(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let (a, b) = if t { (4, 7) } else { (3, 5) };
    let k = SEL_TOKENS.len() as u64;
    let l1 = if t { 4 } else { 3 };
    let one = move |i: u64| sel_seq(i, l1).map(|m| text(&positions(&[m])[1]));
    let toks: &[&str] = &["a:b;", ".s", "{", "}", ",", "@media x", "/**/", "\"", "c:d", " ", ":h", "&", "@keyframes k", "$", "/"];
    let n = toks.len() as u64;
    let l = if t { 6 } else { 5 };
    let seq = move |i: u64| seq_decode(i, n, 1, l).into_iter().map(|t| toks[t]).collect::<String>();
    Check {
        property: "C06",
        level: "exploration",
        rule: "every accepted source of the spaces below is rendered scoped and global, re-parsed, re-rendered and compared, and created as a style and a global style in a debug build; distinct by generated CSS".into(),
        bounds: format!("token sequences <= {l} of {n}; selectors <= {l1} of {k} tokens; rich trees <= {a}, lean trees <= {b} nodes; atom sheets; token sequences <= {} of {} in {} roles", if t { 3 } else { 2 }, ROLE_TOKENS.len(), ROLES.len()),
        assumptions: vec![],
        spaces: vec![
            Space::new("token sequences", seq_count(n, 1, l), move |i, rec| fixpoint(&seq(i), rec), move |i| format!("{:?}", seq(i))).chunked(200_000),
            Space::new("selectors", seq_count(k, 1, l1), move |i, rec| if let Some(s) = one(i) { fixpoint(&s, rec) }, move |i| format!("{:?}", one(i))).chunked(50_000),
            per_sheet("rich trees", &sheet_list(a, &rich_vocab()), |m, rec| fixpoint(&text(m), rec)).chunked(20_000),
            per_sheet("one big dimension", &big_shapes(t, 66), |m, rec| fixpoint(&text(m), rec)).chunked(20),
            per_sheet("lean trees", &sheet_list(b, &lean_vocab()), |m, rec| fixpoint(&text(m), rec)).chunked(20_000),
            per_sheet("atoms", &Sheets(Rc::new(atom_sheets())), |m, rec| fixpoint(&text(m), rec)),
            role_space(if t { 3 } else { 2 }, |css, _, rec| fixpoint(css, rec)),
        ],
    }
}
