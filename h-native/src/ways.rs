//! Every way of giving CSS to the library: the same text means the same style, whichever is used.
use std::borrow::Cow;

use mck::driver::*;
use mck::enumr::*;
use stylist::ast::{Sheet, ToStyleStr};
use stylist::manager::StyleManager;
use stylist::{GlobalStyle, Style, StyleSource};

pub const FORMS: &[&str] = &[
    "&str", "String", "Cow::Borrowed", "Cow::Owned", "StyleSource from &str", "StyleSource from String", "StyleSource from Cow",
    "StyleSource parsed", "StyleSource from Sheet", "Sheet", "Sheet, read back", "StyleSource with another manager",
];

enum Made {
    S(Style),
    G(GlobalStyle),
}
impl Made {
    fn id(&self) -> String {
        match self {
            Made::S(s) => s.id().to_string(),
            Made::G(s) => s.id().to_string(),
        }
    }
    fn css(&self) -> &str {
        match self {
            Made::S(s) => s.get_style_str(),
            Made::G(s) => s.get_style_str(),
        }
    }
}

fn make<C>(css: C, global: bool, mgr_form: usize, m: &StyleManager) -> stylist::Result<Made>
where
    C: TryInto<StyleSource>,
    stylist::Error: From<C::Error>,
{
    let own = |p: Cow<'static, str>, css: C| match mgr_form {
        0 => Style::create_with_manager(p.into_owned(), css, m).map(Made::S),
        _ => Style::create_with_manager(p, css, m.clone()).map(Made::S),
    };
    match (global, mgr_form) {
        (true, 0) => GlobalStyle::new_with_manager(css, m).map(Made::G),
        (true, _) => GlobalStyle::new_with_manager(css, m.clone()).map(Made::G),
        (false, 2) => Style::new_with_manager(css, m).map(Made::S),
        (false, _) => own(m.prefix(), css),
    }
}

fn create(css: &str, form: usize, global: bool, mf: usize, m: &StyleManager, other: &StyleManager) -> stylist::Result<Made> {
    match form {
        0 => make(css, global, mf, m),
        1 => make(css.to_string(), global, mf, m),
        2 => make(Cow::Borrowed(css), global, mf, m),
        3 => make(Cow::<str>::Owned(css.to_string()), global, mf, m),
        4 => make(StyleSource::try_from(css)?, global, mf, m),
        5 => make(StyleSource::try_from(css.to_string())?, global, mf, m),
        6 => make(StyleSource::try_from(Cow::Borrowed(css))?, global, mf, m),
        7 => make(css.parse::<StyleSource>()?, global, mf, m),
        8 => make(StyleSource::from(css.parse::<Sheet>()?), global, mf, m),
        9 => make(css.parse::<Sheet>()?, global, mf, m),
        10 => {
            let s: Sheet = serde_json::from_str(&serde_json::to_string(&css.parse::<Sheet>()?).expect("ser")).expect("de");
            make(s, global, mf, m)
        }
        _ => make(css.parse::<StyleSource>()?.with_manager(other.clone()), global, mf, m),
    }
}

const TOKENS: &[&str] = &["a:b;", "a:b", ".c", "{", "}", ",", " ", "&", "@media x", "@keyframes k", "\"", "/*x*/", ":", "é", "\n"];

/// The text of every short token sequence through every way: accepted, refused and rendered alike.
pub fn texts(t: bool) -> Space {
    let hi = if t { 4 } else { 3 };
    let k = TOKENS.len() as u64;
    let dec = move |i: u64| seq_decode(i, k, 0, hi).into_iter().map(|j| TOKENS[j]).collect::<String>();
    Space::new(
        "every way of giving the text",
        seq_count(k, 0, hi),
        move |i, rec| {
            let css = dec(i);
            let want = css.parse::<Sheet>();
            rec.distinct(&css);
            let other = StyleManager::builder().build().expect("manager");
            for global in [false, true] {
                let m = StyleManager::builder().prefix("p".into()).build().expect("manager");
                let mut first: Option<String> = None;
                for form in 0..FORMS.len() {
                    rec.eval();
                    let got = create(&css, form, global, form % 3, &m, &other);
                    match (&want, got) {
                        (Ok(s), Ok(g)) => {
                            let id = g.id();
                            let css_want = s.to_style_str(if global { None } else { Some(&id) });
                            if g.css() != css_want {
                                rec.violation("meaning depends on the way", format!("{css:?} given as {}:\n{}\ninstead of\n{css_want}", FORMS[form], g.css()));
                            }
                            if *first.get_or_insert(id.clone()) != id {
                                rec.violation("class depends on the way", format!("{css:?} given as {}", FORMS[form]));
                            }
                        }
                        (Err(a), Err(b)) if a.to_string() == b.to_string() => {}
                        (a, b) => rec.violation(
                            "result depends on the way",
                            format!("{css:?} given as {}: {:?}, parsed: {:?}", FORMS[form], b.map(|m| m.css().to_string()).map_err(|e| e.to_string()), a.as_ref().err().map(|e| e.to_string())),
                        ),
                    }
                }
            }
        },
        move |i| format!("{:?}", dec(i)),
    )
}

const SHEETS: &[&str] = &["color: red;", "color: red; ", "color: blue;"];

/// Sequences of creations in one manager, each in its own way: one class per text and kind.
pub fn mixes(t: bool) -> Space {
    let k = (FORMS.len() * SHEETS.len() * 2 * 3) as u64;
    let hi = 2;
    let dec = move |i: u64| -> Vec<(usize, usize, bool, usize)> {
        seq_decode(i, k, 1, hi)
            .into_iter()
            .map(|j| {
                let mut d = Digits(j as u64);
                (d.take(FORMS.len()), d.take(SHEETS.len()), d.take(2) == 1, d.take(3))
            })
            .collect()
    };
    Space::new(
        "every pair of ways in one manager",
        seq_count(k, 1, hi),
        move |i, rec| {
            let ops = dec(i);
            rec.distinct(&format!("{ops:?}"));
            let m = StyleManager::builder().build().expect("manager");
            let other = StyleManager::builder().build().expect("manager");
            let mut made: Vec<(usize, bool, String, Made)> = vec![];
            let rounds = if t { 2 } else { 1 };
            for (form, sh, global, mf) in ops.iter().cycle().take(ops.len() * rounds) {
                rec.eval();
                rec.trace();
                match create(SHEETS[*sh], *form, *global, *mf, &m, &other) {
                    Err(e) => rec.violation("refused", format!("{:?} as {}: {e}", SHEETS[*sh], FORMS[*form])),
                    Ok(g) => {
                        // The second text only differs in white space that means nothing.
                        let text = if *sh == 1 { 0 } else { *sh };
                        let id = g.id();
                        for (s, gl, other_id, _) in &made {
                            if (*s == text && gl == global) != (*other_id == id) {
                                rec.violation("one class per style", format!("{ops:?}: {id} and {other_id}"));
                            }
                        }
                        made.push((text, *global, id, g));
                    }
                }
            }
        },
        move |i| format!("{:?}", dec(i).iter().map(|(f, s, g, m)| (FORMS[*f], SHEETS[*s], *g, *m)).collect::<Vec<_>>()),
    )
}
