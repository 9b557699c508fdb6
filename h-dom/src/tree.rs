//! C21: component trees on the server, in the browser and from the one to the other.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use mck::driver::*;
use serde_json::{json, Value};
use stylist::manager::{render_static, StyleData, StyleManager};
use stylist::Style;
use trees::{App, AppProps, CSS, FORMS, GLOB_FORMS, N};

use crate::node::*;
use crate::world::sem;

thread_local! {
    static SAME: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Both managers get the same prefix from now on, or not.
pub fn same_prefix(b: bool) {
    SAME.with(|s| s.set(b));
}
pub fn prefix(m: usize) -> &'static str {
    match (m, SAME.with(|s| s.get())) {
        (1, false) => "bb",
        _ => "a",
    }
}
/// What the variants of `trees::CSS` mean, `{}` is the class.
pub const SCOPED: &[&str] = &[
    ".{} { color: red; }",
    ".{} { margin: 1px; } .{}:hover { color: blue; }",
    "@media (min-width: 3px) { .{} { padding: 4px; } } .{} .x { top: 0; }",
    "",
    "@media print { @supports (a: b) { .{} { color: red; } .{}:focus { top: 1px; } } }",
    "@keyframes spin { from { left: 0; } to { left: 1px; } } .{} { animation: spin 1s; }",
    ".{} > .y, .{}.z { content: \"}{&;\"; } @supports (g: h) { .{} .w { top: 0; } }",
];
pub const GLOBAL: &[&str] = &[
    ":root { color: red; }",
    ":root { margin: 1px; } :root:hover { color: blue; }",
    "@media (min-width: 3px) { :root { padding: 4px; } } .x { top: 0; }",
    "",
    "@media print { @supports (a: b) { :root { color: red; } :root:focus { top: 1px; } } }",
    "@keyframes spin { from { left: 0; } to { left: 1px; } } :root { animation: spin 1s; }",
    ":root > .y, :root.z { content: \"}{&;\"; } @supports (g: h) { .w { top: 0; } }",
];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Kind {
    Css,
    Use,
    UseM,
    Plain,
    Form,
}

#[derive(Default, Debug)]
pub struct Uses {
    /// (element id, kind, variant, nearest manager)
    pub scoped: Vec<(String, Kind, usize, Option<usize>)>,
    /// (variant, nearest manager)
    pub global: Vec<(usize, Option<usize>)>,
}

pub fn uses(f: &[N]) -> Uses {
    fn go(n: &N, path: String, m: Option<usize>, u: &mut Uses) {
        let (kids, m2): (&[N], Option<usize>) = match n {
            N::El(v) => (v, m),
            N::Css(i, v) | N::Use(i, v) | N::UseM(i, v) | N::Plain(i, v) => {
                let k = match n {
                    N::Css(..) => Kind::Css,
                    N::Use(..) => Kind::Use,
                    N::UseM(..) => Kind::UseM,
                    _ => Kind::Plain,
                };
                // Outside of a styled component `css!` knows no tree.
                u.scoped.push((path.clone(), k, *i, if k == Kind::Plain { None } else { m }));
                (v, m)
            }
            N::Form(k, v) => {
                for (suffix, styles) in FORMS[*k] {
                    for i in *styles {
                        u.scoped.push((format!("{path}{suffix}"), Kind::Form, *i, m));
                    }
                }
                (v, m)
            }
            N::GlobForm(_) => {
                u.global.push((1, m));
                (&[], m)
            }
            N::Mgr(k, v) => (v, Some(*k)),
            N::Glob(i) | N::CssGlob(i) => {
                u.global.push((*i, m));
                (&[], m)
            }
            N::Mq(_) | N::Pmq(..) | N::Nothing => (&[], m),
        };
        for (k, c) in kids.iter().enumerate() {
            go(c, format!("{path}{k}"), m2, u);
        }
    }
    let mut u = Uses::default();
    for (k, n) in f.iter().enumerate() {
        go(n, format!("n{k}"), None, &mut u);
    }
    u
}

/// Element id -> class tokens.
pub fn classes(html: &str) -> Result<BTreeMap<String, Vec<String>>, Fail> {
    let mut out = BTreeMap::new();
    let mut rest = html;
    while let Some(a) = rest.find('<') {
        rest = &rest[a + 1..];
        if rest.starts_with('!') {
            let e = rest.find("-->").map(|e| e + 3).unwrap_or(rest.len());
            rest = &rest[e..];
            continue;
        }
        let script = rest.starts_with("script");
        let e = rest.find('>').unwrap_or(rest.len());
        let tag = &rest[..e];
        let attr = |n: &str| -> Option<&str> {
            let k = tag.find(&format!(" {n}=\""))? + n.len() + 3;
            tag[k..].split('"').next()
        };
        if let Some(id) = attr("id") {
            // Debug locations depend on where the crate is built.
            let c = attr("class").unwrap_or("").split_whitespace().filter(|t| !t.contains(".rs:")).map(|s| s.to_string()).collect();
            if out.insert(id.to_string(), c).is_some() {
                return fail("element rendered twice", format!("{id} in {html}"));
            }
        }
        rest = &rest[e.min(rest.len())..];
        if script {
            let e = rest.find("</script").unwrap_or(rest.len());
            rest = &rest[e..];
        }
    }
    Ok(out)
}

/// One style of a manager as seen from outside: identifier and CSS.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    pub id: String,
    pub css: String,
}

/// Elements that have a class that is no style.
const OWN: &[&[(Kind, usize)]] = &[&[(Kind::UseM, 2)], &[(Kind::Form, 0), (Kind::Form, 1)]];

/// The elements' classes against the styles of every manager (`None`: the default one, if known).
pub fn judge(u: &Uses, html: &str, mgrs: &dyn Fn(Option<usize>) -> Option<Vec<Entry>>, extra_ok: &dyn Fn(Option<usize>, &Entry) -> bool) -> Result<(), Fail> {
    let cl = classes(html)?;
    // Variant 0 gives equal sheets however it is written, the others have fragments of their own.
    let mut shared: BTreeMap<(Option<Kind>, usize, Option<usize>), String> = BTreeMap::new();
    let mut used: BTreeSet<(Option<usize>, String)> = BTreeSet::new();
    let mut paths: BTreeMap<&String, Vec<(Kind, usize, Option<usize>)>> = BTreeMap::new();
    for (path, k, i, m) in &u.scoped {
        paths.entry(path).or_default().push((*k, *i, *m));
    }
    let is_style = |t: &String| t.starts_with("stylist-") || [Some(0), Some(1)].into_iter().any(|m| mgrs(m).is_some_and(|es| es.iter().any(|e| e.id == *t)));
    for (path, want) in &paths {
        let Some(tokens) = cl.get(*path) else { return fail("element not rendered", format!("{path} in {html}")) };
        let mut left: Vec<String> = tokens.iter().filter(|t| is_style(t)).cloned().collect();
        for (k, i, m) in want {
            let es = mgrs(*m);
            let hit = left.iter().position(|t| match &es {
                Some(es) => es.iter().any(|e| e.id == *t && sem(&e.css) == sem(&SCOPED[*i].replace("{}", t))),
                None => t.starts_with("stylist-"),
            });
            let Some(n) = hit else {
                return fail(
                    format!("element without the class of its style in its manager ({k:?})"),
                    format!("{path} ({k:?} {i} in {m:?}) has classes {tokens:?}, manager has {es:?}\n{html}"),
                );
            };
            let t = left.remove(n);
            used.insert((*m, t.clone()));
            let key = ((*i != 0).then_some(*k), *i, *m);
            if es.is_some() && !(*k == Kind::Form && *i != 0) {
                if let Some(o) = shared.insert(key, t.clone()) {
                    if o != t {
                        return fail("same style, two classes", format!("{o} and {t} at {path}"));
                    }
                }
            }
        }
        if !left.is_empty() {
            return fail("element with a class of another style", format!("{path} should have {want:?}, has {tokens:?}\n{html}"));
        }
        if OWN.contains(&want.iter().map(|w| (w.0, w.1)).collect::<Vec<_>>().as_slice()) && !tokens.iter().any(|t| t == "own") {
            return fail("another class lost", format!("{path}: {tokens:?}"));
        }
    }
    for m in [None, Some(0), Some(1)] {
        let Some(es) = mgrs(m) else { continue };
        let globals: Vec<usize> = u.global.iter().filter(|g| g.1 == m).map(|g| g.0).collect();
        for i in &globals {
            let n = es.iter().filter(|e| sem(&e.css) == sem(GLOBAL[*i]) && !used.contains(&(m, e.id.clone()))).count();
            let max = globals.iter().filter(|g| *g == i).count();
            // An empty scoped style of an earlier forest looks the same.
            if n == 0 || (n > max && !GLOBAL[*i].is_empty()) {
                return fail(format!("{n} registrations of a global style"), format!("variant {i} in {m:?} used {max} times: {es:?}"));
            }
        }
        let mut ids = BTreeSet::new();
        for e in &es {
            if !ids.insert(&e.id) {
                return fail("identifier twice", format!("{e:?}"));
            }
            let global = globals.iter().any(|i| sem(&e.css) == sem(GLOBAL[*i]));
            if !global && !used.contains(&(m, e.id.clone())) && !extra_ok(m, e) {
                return fail("style nobody asked for", format!("{e:?} in manager {m:?}"));
            }
            let p = m.map(|m| prefix(m)).unwrap_or("stylist");
            if !e.id.starts_with(&format!("{p}-")) {
                return fail("style without its manager's prefix", format!("{e:?} in manager {m:?}"));
            }
        }
    }
    Ok(())
}

pub struct Served {
    pub html: String,
    pub data: [StyleData; 2],
}

pub fn entries(d: &StyleData) -> Vec<Entry> {
    let mut out = vec![];
    let mut s = String::new();
    d.write_static_markup(&mut s).unwrap();
    let mut rest = s.as_str();
    while let Some(a) = rest.find("<style data-style=\"") {
        rest = &rest[a + 19..];
        let q = rest.find('"').unwrap();
        let id = rest[..q].to_string();
        rest = &rest[q + 2..];
        let e = rest.find("</style>").unwrap();
        out.push(Entry { id, css: rest[..e].to_string() });
        rest = &rest[e..];
    }
    out
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
}

/// Renders on the server; `writers`: collect style data.
pub fn serve(f: &[N], hydratable: bool, writers: bool) -> (Served, Vec<StyleManager>) {
    let mut mgrs = vec![];
    let mut readers = vec![];
    for p in [prefix(0), prefix(1)] {
        let (w, r) = render_static();
        let b = StyleManager::builder().prefix(p.into());
        mgrs.push(if writers { b.writer(w) } else { b }.build().unwrap());
        readers.push(r);
    }
    let props = AppProps { forest: Rc::new(f.to_vec()), mgrs: Rc::new(mgrs.clone()) };
    let html = RT.with(|rt| {
        let set = tokio::task::LocalSet::new();
        set.block_on(rt, async move { yew::LocalServerRenderer::<App>::with_props(props).hydratable(hydratable).render().await })
    });
    let mut it = readers.into_iter().map(|r| r.read_style_data());
    let data = [it.next().unwrap(), it.next().unwrap()];
    (Served { html, data }, mgrs)
}

fn server(f: &[N]) -> Result<(), Fail> {
    let u = uses(f);
    for hydratable in [false, true] {
        let (s, _m) = serve(f, hydratable, true);
        let es = [entries(&s.data[0]), entries(&s.data[1])];
        judge(&u, &s.html, &|m| m.map(|m| es[m].clone()), &|_, _| false)?;
        // The default manager of this thread.
        let cl = classes(&s.html)?;
        for (p, k, i, m) in &u.scoped {
            if m.is_none() && (*k == Kind::Use || *i == 0) {
                let c = Style::new(CSS[*i]).unwrap();
                if !cl[p].iter().any(|t| t == c.get_class_name()) {
                    return fail("style outside of providers is not in the default manager", format!("{p}: {:?}", cl[p]));
                }
            }
        }
    }
    // Managers that collect nothing.
    let (s, mgrs) = serve(f, false, false);
    let cl = classes(&s.html)?;
    for (p, k, i, m) in &u.scoped {
        let pre = m.map(|m| prefix(m)).unwrap_or("stylist");
        let hits: Vec<&String> = cl[p].iter().filter(|t| t.starts_with(&format!("{pre}-"))).collect();
        let n = u.scoped.iter().filter(|x| x.0 == *p).count();
        if hits.len() != n {
            return fail("element without a class of its manager", format!("{p}: {:?}", cl[p]));
        }
        if let (Some(m), true) = (m, *k == Kind::Use || *i == 0) {
            let c = Style::new_with_manager(CSS[*i], mgrs[*m].clone()).unwrap();
            if !hits.iter().any(|h| *h == c.get_class_name()) {
                return fail("class of another style", format!("{p}: {:?}", cl[p]));
            }
        }
    }
    if !s.data.iter().all(|d| entries(d).is_empty()) {
        return fail("data of managers that collect nothing", String::new());
    }
    Ok(())
}

pub fn to_json(f: &[N]) -> Value {
    serde_json::to_value(f).unwrap()
}

/// The client's managers: one in an element, one in a shadow root.
pub fn client(page: Value) -> Result<(), Fail> {
    let mut p = page;
    p["width"] = json!(1000);
    p["containers"] = json!(["div", "shadow"]);
    page_with(p);
    for m in 0..2 {
        let r = cmd(json!({"op": "mgr", "slot": m, "prefix": prefix(m), "container": m}))?;
        if r.get("err").is_some() {
            return fail("manager refused", r.to_string());
        }
    }
    Ok(())
}

pub fn styles(l: &[Child_]) -> Vec<Entry> {
    l.iter().filter_map(|c| c.style.clone().map(|id| Entry { id, css: c.text.clone() })).collect()
}

fn browser(f: &[N]) -> Result<(), Fail> {
    let u = uses(f);
    client(json!({}))?;
    cmd_settle(json!({"op": "render", "forest": to_json(f)}))?;
    let s = snap();
    judge(&u, &s.root, &|m| Some(m.map(|m| styles(&s.containers[m])).unwrap_or(styles(&s.head))), &|_, _| false)?;
    // Rendering the same again changes nothing.
    cmd_settle(json!({"op": "update", "forest": to_json(f)}))?;
    let t = snap();
    if s.head != t.head || s.containers != t.containers {
        return fail("rendering again changes the document", format!("{:?} {:?}\n{:?} {:?}", s.head, s.containers, t.head, t.containers));
    }
    if classes(&s.root)? != classes(&t.root)? {
        return fail("rendering again changes classes", format!("{}\n{}", s.root, t.root));
    }
    Ok(())
}

pub fn markup(s: &Served) -> String {
    let mut m = String::new();
    for d in &s.data {
        d.write_static_markup(&mut m).unwrap();
    }
    m
}

fn hydrated(f: &[N]) -> Result<(), Fail> {
    let u = uses(f);
    let (s, _m) = serve(f, true, true);
    let es = [entries(&s.data[0]), entries(&s.data[1])];
    client(json!({"head": markup(&s), "body": s.html}))?;
    cmd_settle(json!({"op": "hydrate", "forest": to_json(f)}))?;
    let before = classes(&s.html)?;
    let check = |n: &str, root: &str, f: &[N]| -> Result<(), Fail> {
        let t = snap();
        for m in 0..2 {
            if !t.containers[m].is_empty() {
                return fail(format!("{n}: new style elements for styles of the server"), format!("{:?}\nserver had {es:?}\n{}", t.containers[m], s.html));
            }
        }
        let have: Vec<Entry> = styles(&t.head).into_iter().filter(|e| !e.id.starts_with("stylist-")).collect();
        if have != [es[0].clone(), es[1].clone()].concat() {
            return fail(format!("{n}: the server's style elements changed"), format!("{have:?}\n{es:?}"));
        }
        let cl = classes(root)?;
        for (p, _, _, m) in &u.scoped {
            if m.is_some() && cl.get(p) != before.get(p) {
                return fail(format!("{n}: class changed"), format!("{p}: {:?} {:?}", before.get(p), cl.get(p)));
            }
        }
        let _ = f;
        Ok(())
    };
    let t = snap();
    check("hydration", &t.root, f)?;
    // A second copy, rendered by the client only, uses the same styles.
    let mut two = f.to_vec();
    two.extend(f.to_vec());
    cmd_settle(json!({"op": "update", "forest": to_json(&two)}))?;
    let t = snap();
    check("second copy", &t.root, &two)?;
    let u2 = uses(&two);
    let managed = Uses { scoped: u2.scoped.iter().filter(|s| s.3.is_some()).cloned().collect(), global: u2.global.iter().filter(|s| s.1.is_some()).cloned().collect() };
    judge(&managed, &t.root, &|m| m.map(|m| es[m].clone()), &|_, _| false)
}

fn case(f: &[N], rec: &mut Rec) {
    for (n, run) in [("server", server as fn(&[N]) -> Result<(), Fail>), ("browser", browser), ("hydration", hydrated)] {
        rec.eval();
        rec.trace();
        match catch(|| run(f)) {
            Ok(Ok(())) => {
                rec.step("empty", &format!("{n} {f:?}"), &format!("{n} {f:?}"));
                rec.count(n);
            }
            Ok(Err(e)) => return rec.violation(format!("{n}: {}", e.0), format!("{f:?}\n{}", e.1)),
            Err(p) => return rec.violation(format!("{n}: panic: {p}"), format!("{f:?}")),
        }
    }
    rec.distinct(&format!("{f:?}"));
    rec.sample(|| format!("{f:?}"));
}

/// One tree replaced by another in the same place.
fn replaced(a: &[N], b: &[N], hydrate: bool) -> Result<(), Fail> {
    let mut server = [vec![], vec![]];
    if hydrate {
        let (s, _m) = serve(a, true, true);
        server = [entries(&s.data[0]), entries(&s.data[1])];
        client(json!({"head": markup(&s), "body": s.html}))?;
        cmd_settle(json!({"op": "hydrate", "forest": to_json(a)}))?;
    } else {
        client(json!({}))?;
        cmd_settle(json!({"op": "render", "forest": to_json(a)}))?;
    }
    cmd_settle(json!({"op": "update", "forest": to_json(b)}))?;
    let s = snap();
    let ua = uses(a);
    let was_server = |e: &Entry| server.iter().any(|l| l.iter().any(|x| x.id == e.id));
    let of = |m: Option<usize>| -> Vec<Entry> {
        let mut v = m.map(|m| styles(&s.containers[m])).unwrap_or_else(|| styles(&s.head));
        match m {
            None => v.retain(|e| !was_server(e)),
            Some(m) => v.extend(styles(&s.head).into_iter().filter(|e| server[m].iter().any(|x| x.id == e.id))),
        }
        v
    };
    // Scoped styles stay registered.
    let extra = |m: Option<usize>, e: &Entry| ua.scoped.iter().any(|u| u.3 == m && sem(&e.css) == sem(&SCOPED[u.2].replace("{}", &e.id)));
    judge(&uses(b), &s.root, &|m| Some(of(m)), &extra)?;
    cmd_settle(json!({"op": "destroy"}))?;
    let s = snap();
    if let Some(c) = s.head.iter().chain(s.containers.iter().flatten()).find(|c| c.style.as_deref().unwrap_or("").contains("-global-")) {
        return fail("global style after the end of the application", format!("{c:?}"));
    }
    Ok(())
}

fn pairs(name: &str, all: Vec<Vec<N>>, hydrate: bool, same: bool) -> Space {
    let all = Rc::new(all);
    let a2 = all.clone();
    Space::new(
        name,
        all.len() as u64,
        move |i, rec| {
            let a = &all[i as usize];
            same_prefix(same);
            for b in all.iter() {
                rec.eval();
                rec.trace();
                match catch(|| replaced(a, b, hydrate)) {
                    Ok(Ok(())) => {
                        rec.step(&format!("{hydrate} {a:?}"), "update", &format!("{hydrate} {b:?}"));
                        rec.distinct(&format!("{hydrate} {a:?} {b:?}"));
                    }
                    Ok(Err(e)) => return rec.violation(e.0, format!("{a:?} replaced by {b:?}\n{}", e.1)),
                    Err(p) => return rec.violation(format!("panic: {p}"), format!("{a:?} replaced by {b:?}")),
                }
            }
            rec.sample(|| format!("{a:?} replaced by every other forest"));
        },
        move |i| format!("{:?} replaced", a2[i as usize]),
    )
    .chunked(100)
}

type Inner = fn(Vec<N>) -> N;

/// All forests of exactly `n` nodes.
pub fn forests(n: usize, inner: &[Inner], leaf: &[N]) -> Vec<Vec<N>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    // The first tree has k nodes.
    for k in 1..=n {
        let firsts: Vec<N> = if k == 1 { leaf.to_vec() } else { forests(k - 1, inner, leaf).into_iter().flat_map(|f| inner.iter().map(move |i| i(f.clone())).collect::<Vec<_>>()).collect() };
        let rests = forests(n - k, inner, leaf);
        for f in &firsts {
            for r in &rests {
                let mut v = vec![f.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

pub fn inner_all() -> Vec<Inner> {
    vec![N::El, |v| N::Css(0, v), |v| N::Css(1, v), |v| N::Use(0, v), |v| N::UseM(1, v), |v| N::Mgr(0, v), |v| N::Mgr(1, v)]
}
pub fn leaf_all() -> Vec<N> {
    vec![
        N::Css(0, vec![]),
        N::Css(1, vec![]),
        N::Css(2, vec![]),
        N::Use(0, vec![]),
        N::Use(2, vec![]),
        N::UseM(0, vec![]),
        N::UseM(1, vec![]),
        N::UseM(2, vec![]),
        N::Plain(1, vec![]),
        N::Glob(0),
        N::Glob(1),
        N::CssGlob(1),
        N::CssGlob(2),
    ]
}
/// The other forms.
pub fn forms() -> (Vec<Inner>, Vec<N>) {
    fn inner<const K: usize>(v: Vec<N>) -> N {
        N::Form(K, v)
    }
    let i: Vec<Inner> = vec![inner::<0>, inner::<1>, inner::<2>, inner::<3>, inner::<4>, inner::<5>, inner::<6>, inner::<7>, inner::<8>, inner::<9>];
    assert_eq!(i.len(), FORMS.len());
    let l = i.iter().map(|f| f(vec![])).chain((0..GLOB_FORMS).map(N::GlobForm)).collect();
    (i, l)
}

fn space(name: &str, all: Vec<Vec<N>>) -> Space {
    let all = Rc::new(all);
    let a2 = all.clone();
    Space::new(name, all.len() as u64, move |i, rec| {
            same_prefix(i % 2 == 1);
            case(&all[i as usize], rec)
        }, move |i| format!("{:?}", a2[i as usize])).chunked(1000)
}

/// Chains over every two inner components with every so many leaves below, and every leaf (and all
/// of them in turn) many times side by side.
fn big_forests(sizes: &[usize]) -> Vec<Vec<N>> {
    let (inner, leaf) = (inner_all(), leaf_all());
    let mut out = vec![];
    for &n in sizes {
        for a in &inner {
            for (j, b) in inner.iter().enumerate() {
                let mut f = leaf[j % leaf.len()..].iter().step_by(inner.len()).cloned().collect::<Vec<_>>();
                for k in 0..n {
                    f = vec![if k % 2 == 0 { a(f) } else { b(f) }];
                }
                out.push(f);
            }
        }
        let turns: Vec<N> = (0..n).map(|k| leaf[k % leaf.len()].clone()).collect();
        for l in leaf.iter().map(|l| vec![l.clone(); n]).chain([turns]) {
            out.extend([l.clone(), vec![N::Mgr(0, l.clone())], vec![N::Css(1, vec![N::Mgr(1, l)])]]);
        }
    }
    out
}

/// Applications that the server rendered and the browser hydrates, for C16.
pub fn applications(thorough: bool) -> Vec<Space> {
    let has = |f: &Vec<N>| format!("{f:?}").contains("Mgr(");
    let mut all: Vec<Vec<N>> = vec![];
    for n in 2..=(if thorough { 4 } else { 3 }) {
        all.extend(forests(n, &inner_all(), &leaf_all()).into_iter().filter(has));
    }
    all.extend(big_forests(if thorough { &[5, 9, 17] } else { &[5] }).into_iter().filter(has));
    let all = Rc::new(all);
    let a2 = all.clone();
    vec![Space::new(
        "applications",
        all.len() as u64,
        move |i, rec| {
            same_prefix(i % 2 == 1);
            let f = &all[i as usize];
            rec.eval();
            rec.trace();
            match catch(|| hydrated(f)) {
                Ok(Ok(())) => {
                    rec.step("served", "hydrate", &format!("{f:?}"));
                    rec.distinct(&format!("{f:?}"));
                    rec.sample(|| format!("{f:?}"));
                }
                Ok(Err(e)) => rec.violation(e.0, format!("{f:?}\n{}", e.1)),
                Err(p) => rec.violation(format!("panic: {p}"), format!("{f:?}")),
            }
        },
        move |i| format!("{:?}", a2[i as usize]),
    )
    .chunked(500)]
}

pub fn c21(tier: Tier) -> Check {
    let mut spaces = vec![];
    let thorough = tier == Tier::Thorough;
    for n in 1..=(if thorough { 4 } else { 3 }) {
        spaces.push(space(&format!("forests of {n}"), forests(n, &inner_all(), &leaf_all())));
    }
    spaces.push(space("long chains and wide forests", big_forests(if thorough { &[4, 5, 9, 17, 33, 65] } else { &[5, 17] })));
    let few: Vec<Inner> = vec![|v| N::Css(1, v), |v| N::Mgr(0, v), |v| N::Mgr(1, v)];
    let leaves = vec![N::Css(0, vec![]), N::Use(0, vec![]), N::Glob(1)];
    spaces.push(space("forests over fewer labels", forests(if thorough { 5 } else { 4 }, &few, &leaves)));
    let (pi, pl): (Vec<Inner>, Vec<N>) = if thorough {
        (inner_all(), leaf_all())
    } else {
        (
            vec![N::El, |v| N::Css(0, v), |v| N::Use(1, v), |v| N::Mgr(0, v), |v| N::Mgr(1, v)],
            vec![N::Css(0, vec![]), N::Css(2, vec![]), N::Use(0, vec![]), N::UseM(1, vec![]), N::Glob(0), N::Glob(1), N::CssGlob(1)],
        )
    };
    let (mut fi, mut fl) = forms();
    fi.extend([(|v| N::Mgr(0, v)) as Inner, |v| N::Mgr(1, v)]);
    fl.extend([N::Css(0, vec![]), N::Use(1, vec![]), N::Glob(1)]);
    for n in 1..=(if thorough { 3 } else { 2 }) {
        spaces.push(space(&format!("other forms of components, forests of {n}"), forests(n, &fi, &fl)));
    }
    let under: Vec<Vec<N>> = forests(2, &forms().0, &fl).into_iter().flat_map(|f| [vec![N::Mgr(0, f.clone())], vec![N::Mgr(0, vec![N::Mgr(1, f)])]]).collect();
    spaces.push(space("other forms of components under providers", under));
    let alone: Vec<Vec<N>> = forests(1, &fi, &fl).into_iter().flat_map(|f| [f.clone(), vec![N::Mgr(0, f.clone())], vec![N::Mgr(1, f)]]).collect();
    spaces.push(pairs("other forms of components, replaced", alone.clone(), false, false));
    spaces.push(pairs("hydrated other forms of components, replaced", alone, true, false));
    let other_leaves: Vec<N> = (3..CSS.len()).flat_map(|i| [N::Css(i, vec![]), N::Use(i, vec![]), N::Plain(i, vec![]), N::Glob(i)]).chain([N::CssGlob(2), N::Use(0, vec![])]).collect();
    let other_inner: Vec<Inner> = vec![|v| N::Mgr(0, v), |v| N::Mgr(1, v), |v| N::Css(3, v), |v| N::Use(3, v)];
    let mut others = vec![];
    for n in 1..=(if thorough { 3 } else { 2 }) {
        others.extend(forests(n, &other_inner, &other_leaves));
    }
    let by_two: Vec<Vec<N>> = forests(2, &other_inner, &other_leaves).into_iter().filter(|f| f.len() == 1).collect();
    others.extend(by_two.iter().flat_map(|f| [vec![N::Mgr(0, f.clone())], vec![N::Mgr(1, f.clone())]]));
    spaces.push(space("other sheets", others));
    spaces.push(pairs("other sheets, replaced", by_two.clone(), false, false));
    spaces.push(pairs("hydrated other sheets, replaced", by_two, true, false));
    let mut small = vec![vec![]];
    for n in 1..=2 {
        small.extend(forests(n, &pi, &pl));
    }
    let np = small.len();
    spaces.push(pairs("forest replaced by another", small.clone(), false, false));
    spaces.push(pairs("hydrated forest replaced by another", small.clone(), true, false));
    spaces.push(pairs("hydrated forest replaced by another, equal prefixes", small, true, true));
    Check {
        property: "C21",
        level: "model_checking",
        rule: "distinct component trees, each rendered by the server renderer (plain, hydratable, without data), by the browser build, and hydrated in the browser from the server's output".into(),
        bounds: format!(
            "all forests of up to {} nodes over 7 inner and 13 leaf components, two providers; all forests of {} nodes over 3 inner and 3 leaf components; every ordered pair of {np} forests of up to 2 nodes, the first rendered or hydrated and then replaced by the second",
            if thorough { 4 } else { 3 },
            if thorough { 5 } else { 4 }
        ),
        assumptions: crate::world::ASSUME.iter().map(|s| s.to_string()).collect(),
        spaces,
    }
}
