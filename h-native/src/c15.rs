//! C15: static markup with hostile content.
use crate::sheets::style_elements;
use mck::driver::*;
use stylist::manager::{render_static, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};

const FRAGS: &[&str] = &[
    "</style>", "</style", "</STYLE>", "</sTyLe x", "<", "/", "style", ">", "<!--", "-->", "<style", "<script>", "</script>", "&lt;", "&", "<\\/style>",
    "\\", "]]>", " ", "a", "</style\\9 ", "\\3c /style>", "'",
];

/// Where hostile text can stand; each makes a stylesheet of it or refuses it.
fn place(p: usize, t: &str) -> String {
    // Inside a double-quoted string the text must not end with an unfinished escape.
    match p {
        0 => format!("content: \"{t}\";"),
        1 => format!("[a=\"{t}\"] {{ k: v; }}"),
        2 => format!("@supports (content: \"{t}\") {{ k: v; }}"),
        3 => format!("k: url(\"{t}\");"),
        4 => format!("k: {t};"),
        5 => format!("{t} {{ k: v; }}"),
        6 => format!("@media {t} {{ k: v; }}"),
        7 => format!("@keyframes {t} {{ from {{ k: v; }} }}"),
        8 => format!("k{t}: v;"),
        9 => format!("@keyframes a {{ from {{ k: \"{t}\"; }} }} .b {{ @media x {{ k: \"{t}\" }} }}"),
        10 => format!("k: ({t});"),
        11 => format!("/*{t}*/ k: v;"),
        _ => unreachable!(),
    }
}
const PLACES: usize = 12;

/// CSS text with the escapes of '/' and '!' undone: the same CSS as far as any CSS parser can tell.
fn unslash(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some(n @ ('/' | '!')) => out.push(n),
                Some(n) => {
                    out.push(c);
                    out.push(n);
                }
                None => out.push(c),
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn page(styles: &[String], rec: &mut Rec) {
    let (w, r) = render_static();
    let mgr = StyleManager::builder().writer(w).build().expect("manager");
    let mut want: Vec<(String, String)> = vec![];
    for (i, css) in styles.iter().enumerate() {
        let made = if i % 2 == 0 {
            Style::new_with_manager(css.as_str(), &mgr).map(|s| (s.get_class_name().to_string(), s.get_style_str().to_string()))
        } else {
            GlobalStyle::new_with_manager(css.as_str(), &mgr).map(|s| (s.id().to_string(), s.get_style_str().to_string()))
        };
        match made {
            Ok(x) => {
                if !want.contains(&x) {
                    want.push(x)
                }
            }
            Err(_) => rec.count("refused"),
        }
    }
    if want.is_empty() {
        return;
    }
    rec.eval();
    rec.distinct(&styles.join("\n"));
    rec.sample(|| styles.join(" | "));
    let data = r.read_style_data();
    let json: StyleData = serde_json::from_str(&serde_json::to_string(&data).expect("ser")).expect("de");
    let bin: StyleData = bincode::deserialize(&bincode::serialize(&data).expect("ser")).expect("de");
    for (how, d) in [("read", &data), ("json", &json), ("binary", &bin)] {
        let mut html = String::new();
        if d.write_static_markup(&mut html).is_err() {
            return rec.violation("writing failed", format!("{styles:?}"));
        }
        match style_elements(&html) {
            Err(e) => rec.violation(format!("escaped {how}"), format!("{styles:?}\n{e}\n{html}")),
            Ok(got) => {
                let norm = |v: &[(String, String)]| v.iter().map(|(i, c)| (i.clone(), unslash(c))).collect::<Vec<_>>();
                if norm(&got) != norm(&want) {
                    rec.violation(format!("changed {how}"), format!("{styles:?}\nmarkup ({how})\n{html}\ngives {got:?}\ninstead of {want:?}"));
                }
            }
        }
    }
}

pub fn check(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let k = FRAGS.len() as u64;
    let l = if t { 4 } else { 3 };
    let one = move |i: u64| {
        let p = (i % PLACES as u64) as usize;
        let s: String = seq_decode(i / PLACES as u64, k, 1, l).into_iter().map(|f| FRAGS[f]).collect();
        place(p, &s)
    };
    let several = move |i: u64| {
        let mut d = Digits(i);
        (0..3).map(|_| place([0, 1, 9][d.take(3)], FRAGS[d.take(k as usize)])).collect::<Vec<_>>()
    };
    // Styles without any rule have an element too.
    const EMPTY: [&str; 5] = ["", " ", ".a{}", "&:hover{}", "@media print{}"];
    let e = EMPTY.len() as u64;
    let with_empty = move |i: u64| {
        let mut d = Digits(i);
        (0..4)
            .map(|_| match d.take(e as usize + 6) {
                x if x < e as usize => EMPTY[x].to_string(),
                x => place([0, 1, 9][(x - e as usize) % 3], FRAGS[(x - e as usize) % 2]),
            })
            .collect::<Vec<_>>()
    };
    // Pages of many styles, one of them hostile or all of them.
    let sizes: &[usize] = if t { &[5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257] } else { &[5, 8, 9, 16, 17, 33, 65] };
    let ns = sizes.len() as u64;
    let many = move |i: u64| {
        let mut d = Digits(i);
        let (f, p, at, n) = (d.take(k as usize), [0, 1, 2, 9][d.take(4)], d.take(4), sizes[d.take(ns as usize)]);
        (0..n)
            .map(|j| match at {
                0 if j == 0 => place(p, FRAGS[f]),
                1 if j == n - 1 => place(p, FRAGS[f]),
                2 if j % 2 == 0 => place(p, &format!("{}{j}", FRAGS[f])),
                3 => place([0, 1, 2, 9][j % 4], &format!("{}{j}", FRAGS[(f + j) % k as usize])),
                _ => format!("k{j}: v;"),
            })
            .collect::<Vec<_>>()
    };
    Check {
        property: "C15",
        level: "exploration",
        rule: "every sequence of markup-significant fragments up to the bound at every place of a stylesheet, one and three styles per page, scoped and global; the markup, also of deserialized data, is read the way an HTML parser reads style elements; cases whose stylesheet is refused are not counted; distinct by stylesheet text".into(),
        bounds: format!("{k} fragments, sequences <= {l}, {PLACES} places; pages of 3 single-fragment styles; pages of 4 styles with and without rules; pages of up to {} styles", sizes[sizes.len() - 1]),
        assumptions: vec!["style prefixes are valid class names, as documented".into(), "a style element is raw text ending at '</style' followed by white space, '/' or '>' in any letter case".into()],
        spaces: vec![
            Space::new("fragments x place", seq_count(k, 1, l) * PLACES as u64, move |i, rec| page(&[one(i)], rec), one).chunked(60_000),
            Space::new("pages of three", (3 * k).pow(3), move |i, rec| page(&several(i), rec), move |i| several(i).join(" | ")).chunked(60_000),
            Space::new("pages of many", k * 16 * ns, move |i, rec| page(&many(i), rec), move |i| many(i).join(" | ")),
            Space::new("pages with empty styles", (e + 6).pow(4), move |i, rec| page(&with_empty(i), rec), move |i| with_empty(i).join(" | ")),
        ],
    }
}
