//! C24: managers are what their builders were told.
use crate::sheets::style_elements;
use mck::driver::*;
use mck::hist::Fail;
use stylist::manager::{render_static, StaticReader, StyleManager};
use stylist::{GlobalStyle, Style};

const PREFIXES: &[&str] = &["a", "b-c", "_", "stylist", "my-global"];
const WRITERS: usize = 2;
const N: usize = PREFIXES.len() + WRITERS;

fn one(calls: &[usize], rec: &mut Rec) -> Result<(), Fail> {
    let fail = |s: &str, d: String| Err((s.to_string(), format!("{}: {d}", show(calls))));
    let (mut ws, mut rs): (Vec<_>, Vec<Option<StaticReader>>) = (0..WRITERS).map(|_| render_static()).map(|(w, r)| (Some(w), Some(r))).unzip();
    let mut b = if calls.len() % 2 == 0 { StyleManager::builder() } else { stylist::manager::StyleManagerBuilder::new() };
    let (mut prefix, mut writer) = ("stylist", None);
    for c in calls {
        if *c < PREFIXES.len() {
            prefix = PREFIXES[*c];
            b = b.prefix(if calls.len() % 2 == 0 { prefix.into() } else { prefix.to_string().into() });
        } else {
            let w = c - PREFIXES.len();
            writer = Some(w);
            b = b.writer(ws[w].take().expect("a writer is used once"));
        }
    }
    let m = match b.build() {
        Ok(m) => m,
        Err(e) => return fail("refused", e.to_string()),
    };
    if m.prefix() != prefix {
        return fail("prefix", format!("{} instead of {prefix}", m.prefix()));
    }
    let other = StyleManager::builder().prefix(prefix.to_string().into()).build().expect("manager");
    let copy = m.clone();
    let by_ref = StyleManager::from(&m);
    for (a, b, same) in [
        (&m, &m, true),
        (&m, &copy, true),
        (&copy, &by_ref, true),
        (&m, &other, false),
        (&m, &StyleManager::default(), false),
        (&m, &StyleManager::new().expect("manager"), false),
        (&StyleManager::default(), &StyleManager::default(), true),
        (&StyleManager::new().expect("manager"), &StyleManager::new().expect("manager"), false),
    ] {
        if (a == b) != same || (b == a) != same {
            return fail("equality", format!("{same} expected"));
        }
    }
    if copy.prefix() != prefix || by_ref.prefix() != prefix || StyleManager::new().expect("manager").prefix() != "stylist" || StyleManager::default().prefix() != "stylist" {
        return fail("prefix", "of a copy or a default".into());
    }
    // One manager under several names.
    let css = ["color: red;", ".x { k: v; }", "@media y { k: w; }"];
    let mut want: Vec<(String, String)> = vec![];
    for (k, text) in css.iter().enumerate() {
        let s = [&m, &copy, &by_ref].map(|m| Style::new_with_manager(*text, m).expect("style"));
        let g = [&by_ref, &m, &copy].map(|m| GlobalStyle::new_with_manager(*text, m).expect("style"));
        let own = [&copy, &by_ref, &m].map(|m| Style::create_with_manager("own", *text, m).expect("style"));
        for l in [&s, &own] {
            if l[0].get_class_name() != l[1].get_class_name() || l[0].get_class_name() != l[2].get_class_name() {
                return fail("a copy is another manager", format!("style {k}"));
            }
        }
        if g[0].id() != g[1].id() || g[0].id() != g[2].id() {
            return fail("a copy is another manager", format!("global style {k}"));
        }
        for (id, p) in [(s[0].id().to_string(), prefix.to_string()), (g[0].id().to_string(), format!("{prefix}-global")), (own[0].id().to_string(), "own".into())] {
            let ok = id.strip_prefix(&format!("{p}-")).is_some_and(|r| !r.is_empty() && r.chars().all(|c| c.is_ascii_alphanumeric()));
            if !ok {
                return fail("identifier", format!("{id} with prefix {p}"));
            }
        }
        let e = Style::new_with_manager(*text, &other).expect("style");
        if e.get_class_name() == s[0].get_class_name() {
            return fail("two managers share a style", format!("style {k}"));
        }
        want.push((s[0].id().to_string(), s[0].get_style_str().to_string()));
        want.push((g[0].id().to_string(), g[0].get_style_str().to_string()));
        want.push((own[0].id().to_string(), own[0].get_style_str().to_string()));
        // A manager that collects goes on after unregistering; others forget.
        s[0].unregister();
        let again = Style::new_with_manager(*text, &m).expect("style");
        if (again.get_class_name() == s[0].get_class_name()) != writer.is_some() {
            return fail("unregistering", format!("style {k}"));
        }
    }
    for (k, r) in rs.iter_mut().enumerate() {
        let mut html = String::new();
        r.take().expect("reader").read_style_data().write_static_markup(&mut html).expect("markup");
        let got = style_elements(&html).map_err(|e| ("markup".to_string(), e))?;
        if writer == Some(k) && got != want || writer != Some(k) && !got.is_empty() {
            return fail("collected data", format!("writer {k} has {got:?}"));
        }
    }
    rec.distinct(&show(calls));
    rec.sample(|| show(calls));
    Ok(())
}

fn show(calls: &[usize]) -> String {
    calls.iter().map(|c| if *c < PREFIXES.len() { format!(".prefix({:?})", PREFIXES[*c]) } else { format!(".writer(w{})", c - PREFIXES.len()) }).collect()
}

pub fn check(tier: Tier) -> Check {
    let l = if tier == Tier::Thorough { 6 } else { 4 };
    let dec = move |i: u64| seq_decode(i, N as u64, 0, l).into_iter().collect::<Vec<usize>>();
    Check {
        property: "C24",
        level: "model_checking",
        rule: "every sequence of builder calls up to the bound; the manager built, its copies and references, managers built alike and the default one are compared, and styles created through each of them; distinct by sequence".into(),
        bounds: format!("sequences of {l} calls over {} prefixes and {WRITERS} writers", PREFIXES.len()),
        assumptions: vec!["random identifiers do not collide by chance (62^8)".into()],
        spaces: vec![Space::new(
            "builder calls",
            seq_count(N as u64, 0, l),
            move |i, rec| {
                let calls = dec(i);
                // A writer is for one manager.
                if (PREFIXES.len()..N).any(|w| calls.iter().filter(|c| **c == w).count() > 1) {
                    return;
                }
                rec.eval();
                rec.trace();
                match catch(|| one(&calls, rec)) {
                    Ok(Ok(())) => rec.step("builder", &show(&calls), "built"),
                    Ok(Err(e)) => rec.violation(e.0, e.1),
                    Err(p) => rec.violation(format!("panic: {p}"), show(&calls)),
                }
            },
            move |i| show(&dec(i)),
        )],
    }
}
