//! C01: parsing arbitrary text is total, strict and lossless.
use crate::common::*;
use mck::css::{squeeze, units};
use mck::driver::*;
use mck::model::expand;
use mck::refparse::{parse, Ref};
use stylist::ast::Sheet;

const STRUCT: &[&str] = &[
    "a", ":", ";", "{", "}", ",", " ", "@media x", "\"", "/*", "*/", "&", "(", ")", "@keyframes k ",
];
const MACRO: &[&str] = &["a:b", ";", "{", "}", ".s", ",", "@media x", "@keyframes k"];
const STRS: &[&str] = &["\"", "\\", "'", "a:", ";", "{", "}", "/*", "*/", ".s"];
const MISC: &[&str] = &[
    "a:b;", "$", "${", "}", "{", "[", "]", "/", "*", "=", "@", "@media ", "@font-face", "\n", "é", ".s", "!", "#", "0", "-", "\u{a0}", "\x0c", "\\é",
];

/// Characters that other definitions of white space, or none, would treat alike.
const ODD: &[&str] = &[
    "a:b", ";", "x{", "}", "\"", "c", "\0", "\u{feff}", "\r", "\u{2028}", "\u{200b}", "\t", "\u{85}", "\x0b", "\x7f", "\u{10ffff}",
];

const CONTEXTS: &[(&str, &str)] = &[
    ("x{", "}"),
    ("@media y{", "}"),
    ("x{@media y{", "}}"),
    ("@keyframes y{", "}"),
    ("@keyframes y{from{", "}}"),
    ("x{p:q;", "r:s;}"),
    ("p:q;", "r:s;"),
    ("x{p:", ";r:s}"),
    ("x", "{r:s}"),
    ("@media y", "{r:s;}"),
];

const SEEDS: &[&str] = &[
    "a:b;.c{d:e;f:g}@media x{h:i;.j{k:l}}",
    ".c,.d{e:\"f;}\";@supports (g:h){i:j}}",
    "@keyframes k{from{a:b}50%,to{c:d;}}",
    "&:hover,:root>a{b:url(http://c/d)}/*e*/f:g;",
    "@container n (w > 1px){@media x{.a:not(.b,.c){d:e}}}",
    "[a=\"b\"]{c:d/e;--f:-g}",
];
const EDITS: &[&str] = &[
    "", "a", " ", ":", ";", "{", "}", ",", "\"", "'", "/", "*", "@", "$", "&", "(", ")", "[", "]", "\\", "/*", "*/", "\n", "-", ".", "#", "é", "\u{a0}", "\x0c",
];

fn check_text(css: &str, rec: &mut Rec) {
    rec.eval();
    let want = parse(css);
    let got = css.parse::<Sheet>();
    let zone = match &want {
        Ref::Must(_) => "must",
        Ref::May(..) => "may",
        Ref::Loose(_) => "loose",
        Ref::Bad(_) => "bad",
    };
    rec.count(&format!("{zone}/{}", if got.is_ok() { "accepted" } else { "refused" }));
    match (&want, got) {
        (Ref::Must(_), Err(e)) => {
            rec.distinct(css);
            rec.violation("refused", format!("text of the supported grammar was refused: {css:?}\n{e}"))
        }
        (_, Err(_)) => {}
        (Ref::Bad(why), Ok(s)) => {
            rec.distinct(css);
            rec.violation(
                "accepted",
                format!("malformed text was accepted: {css:?} ({why}); it became\n{}", render(&s, Some("C"))),
            )
        }
        (Ref::Must(m) | Ref::May(m, _), Ok(s)) => {
            rec.distinct(css);
            rec.sample(|| format!("{css:?} -> {:?}", render(&s, Some("C"))));
            for class in [Some("C"), None] {
                if let Err(e) = compare(&render(&s, class), &expand(m, class)) {
                    rec.violation("meaning", format!("{css:?} ({class:?}) was accepted with another meaning\n{e}"));
                    return;
                }
            }
            lossless(css, &s, rec);
        }
        (Ref::Loose(_), Ok(s)) => {
            rec.distinct(css);
            lossless(css, &s, rec)
        }
    }
}

/// Everything written, apart from structure characters, white space and comments, is in the sheet.
fn lossless(css: &str, s: &Sheet, rec: &mut Rec) {
    let drop = "{};:,";
    let Ok(a) = squeeze(css, drop) else { return };
    let l = leaves(s).join(" ");
    // Unbalanced quotes never get here: they are refused by the reference reader.
    match squeeze(&l, drop) {
        Ok(b) if a == b => {}
        b => {
            if units(&l).is_ok() || b.is_err() {
                rec.violation("lossless", format!("{css:?} lost or gained text: {a:?} became {b:?}"))
            }
        }
    }
}

fn seq_space(name: &str, alpha: &'static [&'static str], hi: u32, pre: &'static str, post: &'static str) -> Space {
    let k = alpha.len() as u64;
    let dec = move |i: u64| {
        let mut s = String::from(pre);
        for t in seq_decode(i, k, 0, hi) {
            s.push_str(alpha[t]);
        }
        s.push_str(post);
        s
    };
    Space::new(name, seq_count(k, 0, hi), move |i, rec| check_text(&dec(i), rec), move |i| format!("{:?}", dec(i)))
        .chunked(300_000)
}

fn edits_space(name: &str, two: bool) -> Space {
    // Every replacement of one character (and insertion before it) of every seed; with `two`,
    // every pair of such edits at distinct positions.
    fn edit(s: &[char], pos: usize, ins: bool, e: &str) -> String {
        let mut o: String = s[..pos].iter().collect();
        o.push_str(e);
        o.extend(s[pos + if ins || pos >= s.len() { 0 } else { 1 }..].iter());
        o
    }
    let mut offs = vec![];
    let mut total = 0u64;
    for s in SEEDS {
        let n = s.chars().count() as u64 + 1;
        let one = n * 2 * EDITS.len() as u64;
        let c = if two { one * one } else { one };
        offs.push((total, c));
        total += c;
    }
    let dec = move |i: u64| {
        let k = offs.iter().position(|(o, c)| i >= *o && i < o + c).unwrap();
        let mut d = Digits(i - offs[k].0);
        let mut cur: Vec<char> = SEEDS[k].chars().collect();
        let n = cur.len() + 1;
        for _ in 0..if two { 2 } else { 1 } {
            let p = d.take(n);
            let ins = d.take(2) == 1;
            let e = EDITS[d.take(EDITS.len())];
            let p = p.min(cur.len());
            cur = edit(&cur, p, ins, e).chars().collect();
        }
        cur.into_iter().collect::<String>()
    };
    let dec2 = dec.clone();
    Space::new(name, total, move |i, rec| check_text(&dec(i), rec), move |i| format!("{:?}", dec2(i))).chunked(300_000)
}

/// Long chains: `n` repetitions and `n` levels of nesting.
fn chains() -> Space {
    const KINDS: usize = 9;
    const MAX: u64 = 48;
    fn text(kind: usize, n: usize) -> String {
        match kind {
            0 => (0..n).map(|i| format!("a{i}:b{i};")).collect(),
            1 => format!(".x{{{}}}", (0..n).map(|i| format!("a{i}:b{i};")).collect::<String>()),
            2 => format!("{}{{a:b}}", (0..n.max(1)).map(|i| format!(".s{i}")).collect::<Vec<_>>().join(",")),
            3 => format!("{}a:b;{}", "@media x{".repeat(n), "}".repeat(n)),
            4 => format!(".y{{{}a:b;{}}}", "@media x{".repeat(n), "}".repeat(n)),
            5 => (0..n).map(|i| format!(".x{i}{{a:b}}")).collect(),
            6 => format!("@keyframes k{{{}}}", (0..n).map(|i| format!("{i}%{{a:b}}")).collect::<String>()),
            7 => format!("a:{}b;", "/*x*/".repeat(n)),
            _ => format!("{}a:b;{}", "@media x{".repeat(n), "}".repeat(n.saturating_sub(1))),
        }
    }
    let f = |i: u64| {
        let mut d = Digits(i);
        let k = d.take(KINDS);
        text(k, i as usize / KINDS)
    };
    Space::new("chains", KINDS as u64 * MAX, move |i, rec| check_text(&f(i), rec), move |i| format!("{:?}", f(i)))
}

pub fn check(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let mut spaces = vec![
        seq_space("struct", STRUCT, if t { 6 } else { 5 }, "", ""),
        seq_space("macro", MACRO, if t { 8 } else { 7 }, "", ""),
        seq_space("strings", STRS, if t { 7 } else { 5 }, "", ""),
        seq_space("misc", MISC, if t { 5 } else { 4 }, "", ""),
        seq_space("odd characters", ODD, if t { 5 } else { 4 }, "", ""),
        edits_space("edits1", false),
        chains(),
        crate::ways::texts(t),
    ];
    for (pre, post) in CONTEXTS {
        spaces.push(seq_space(&format!("in {pre}"), STRUCT, if t { 5 } else { 4 }, pre, post));
        spaces.push(seq_space(&format!("misc in {pre}"), MISC, if t { 4 } else { 3 }, pre, post));
    }
    if t {
        spaces.push(edits_space("edits2", true));
    }
    Check {
        property: "C01",
        level: "exploration",
        rule: "every token sequence up to the stated length over each alphabet, raw and inside each context, every edit of every seed sheet, long chains, and short token sequences through every way of giving text to the library; a case is non-trivial when the parser or the reference accepts it, distinct by its text".into(),
        bounds: format!("tier {tier:?}: see space_cases (alphabet sizes 15, 8, 10, 22, 16)"),
        assumptions: vec![
            "the reference parser states the supported grammar; text it classifies as 'may' or 'loose' may be refused".into(),
        ],
        spaces,
    }
}
