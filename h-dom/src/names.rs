//! C10: names in the browser, of one application and of several on a page.
use std::collections::BTreeMap;

use mck::driver::*;
use serde_json::json;

use crate::node::*;
use crate::world::css_of;

/// Managers: the default one, and two with prefixes.
const PREFIX: [&str; 3] = ["stylist", "stylist", "p-q"];
/// (manager, CSS, global, own prefix)
const OPS: [(usize, usize, bool, Option<&str>); 9] =
    [(0, 0, false, None), (0, 0, true, None), (0, 1, false, None), (1, 0, false, None), (1, 1, true, None), (2, 0, false, None), (2, 0, true, None), (1, 0, false, Some("p-q")), (2, 1, false, Some("x_"))];

/// Runs the program in an application of its own: the names it makes.
fn app(prog: &[usize]) -> Result<Vec<(String, String)>, Fail> {
    page_with(json!({"width": 1000, "containers": ["div", "shadow"]}));
    for m in 1..3 {
        cmd(json!({"op": "mgr", "slot": m, "prefix": PREFIX[m], "container": m - 1}))?;
    }
    for (h, i) in prog.iter().enumerate() {
        let (m, css, global, own) = OPS[*i];
        let mut c = json!({"op": "new", "h": h, "css": css_of(css).0, "global": global});
        if m > 0 {
            c["mgr"] = json!(m);
        }
        if let Some(p) = own {
            c["prefix"] = json!(p);
        }
        let r = cmd(c)?;
        if r.get("err").is_some() {
            return fail("creation failed", r.to_string());
        }
    }
    let s = snap();
    let mut out = vec![];
    for (m, l) in [&s.head, &s.containers[0], &s.containers[1]].into_iter().enumerate() {
        let made: Vec<&usize> = prog.iter().enumerate().filter(|(k, i)| OPS[**i].0 == m && !prog[..*k].contains(*i)).map(|x| x.1).collect();
        let ids: Vec<&String> = l.iter().filter_map(|c| c.style.as_ref()).collect();
        if ids.len() != made.len() {
            return fail("not one element per style", format!("{ids:?} for {made:?}"));
        }
        for (id, i) in ids.into_iter().zip(made) {
            let want = format!("{}-{}", OPS[*i].3.unwrap_or(PREFIX[m]), if OPS[*i].2 { "global-" } else { "" });
            let rest = id.strip_prefix(&want).unwrap_or("");
            if rest.is_empty() || !rest.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') {
                return fail("malformed name", format!("{id} should start with {want}"));
            }
            out.push((id.clone(), format!("{:?}", OPS[*i])));
        }
    }
    Ok(out)
}

fn case(prog: &[usize], other: &[usize], rec: &mut Rec) -> Result<(), Fail> {
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (k, p) in [prog, prog, other].into_iter().enumerate() {
        rec.eval();
        rec.trace();
        for (id, what) in app(p)? {
            let what = format!("application {k}: {what}");
            if let Some(o) = seen.insert(id.clone(), what.clone()) {
                return fail("name used twice", format!("{id}\n{o}\n{what}"));
            }
        }
    }
    Ok(())
}

pub fn c10(tier: Tier) -> Check {
    let most = if tier == Tier::Thorough { 4 } else { 3 };
    let n = OPS.len() as u64;
    let total = seq_count(n, 1, most);
    Check {
        property: "C10",
        level: "model_checking",
        rule: "every sequence of creations over three managers, each run in two applications started separately in the browser and beside another sequence in a third one: every name is well formed and no two registrations have the same; distinct by sequence".into(),
        bounds: format!("sequences of up to {most} creations of {n} kinds, three applications"),
        assumptions: vec!["in random mode, uniqueness is judged up to the browser's source of randomness (names do not collide by chance)".into()],
        spaces: vec![Space::new(
            "applications on one page",
            total,
            move |i, rec| {
                let prog = seq_decode(i, n, 1, most);
                let other = seq_decode((i * 7 + 5) % total, n, 1, most);
                match catch(|| case(&prog, &other, rec)) {
                    Ok(Ok(())) => {
                        rec.step("start", &format!("{prog:?}"), &format!("{prog:?}"));
                        rec.distinct(&format!("{prog:?}"));
                        rec.sample(|| format!("{prog:?} and {other:?}"));
                    }
                    Ok(Err(e)) => rec.violation(e.0, format!("{prog:?} and {other:?}\n{}", e.1)),
                    Err(p) => rec.violation(format!("panic: {p}"), format!("{prog:?}")),
                }
            },
            move |i| format!("{:?}", seq_decode(i, n, 1, most)),
        )
        .chunked(50)],
    }
}
