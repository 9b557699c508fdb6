//! C11, C12, C13: the document under histories of managers and styles.
use std::collections::BTreeMap;
use std::rc::Rc;

use mck::css::flatten;
use mck::driver::*;
use mck::hist::{histories, scripts, states, Impl, Model};
use serde_json::{json, Value};

use crate::node::*;

#[derive(Clone, Debug)]
pub struct MgrCfg {
    pub container: Option<usize>,
    pub prefix: &'static str,
    pub append: Option<bool>,
    /// The thread's default manager.
    pub default: bool,
    /// Builder calls, when the manager is not built in the usual way.
    pub calls: Option<Vec<Call>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Call {
    Prefix(&'static str),
    Container(usize),
    Append(bool),
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub containers: Vec<&'static str>,
    pub mgrs: Vec<MgrCfg>,
    /// (CSS, global)
    pub keys: Vec<(usize, bool)>,
    pub handles: usize,
    pub drop_mgr: bool,
    pub clone: bool,
    /// Manager -> keys of the styles a server rendered for it.
    pub served: Vec<Vec<usize>>,
}

pub const CSS: &[(&str, &str, &str)] = &[
    ("color: red;", ".{} { color: red; }", ":root { color: red; }"),
    ("margin: 1px; &:hover { top: 0; }", ".{} { margin: 1px; } .{}:hover { top: 0; }", ":root { margin: 1px; } :root:hover { top: 0; }"),
];

type Texts = (&'static str, &'static str, &'static str);
/// Stylesheet number `i` and what it means for a class and globally.
pub fn css_of(i: usize) -> Texts {
    thread_local!(static L: std::cell::RefCell<Vec<Texts>> = std::cell::RefCell::new(CSS.to_vec()));
    L.with(|l| {
        let mut l = l.borrow_mut();
        while l.len() <= i {
            let n = l.len();
            let k = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
            l.push((k(format!("width: {n}px;")), k(format!(".{{}} {{ width: {n}px; }}")), k(format!(":root {{ width: {n}px; }}"))));
        }
        l[i]
    })
}

/// A style: manager, key, serial number.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Content {
    pub serial: usize,
    pub mgr: usize,
    pub key: usize,
    pub registered: bool,
}

#[derive(Clone, Debug)]
pub struct World {
    pub cfg: Rc<Cfg>,
    pub mgr_alive: Vec<bool>,
    pub contents: Vec<Content>,
    /// Handle slot -> serial of a content.
    pub handles: Vec<Option<usize>>,
    /// Container (the last one is the head) -> serials in document order, `None` where foreign nodes are.
    pub doc: Vec<Vec<Option<usize>>>,
    pub next: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    New { h: usize, mgr: usize, key: usize },
    Clone { from: usize, to: usize },
    Drop { h: usize },
    Unreg { h: usize },
    DropMgr { mgr: usize },
    /// The server's data once more.
    Load { mgr: usize },
}

impl World {
    pub fn new(cfg: &Cfg) -> World {
        let mut doc: Vec<Vec<Option<usize>>> = cfg.containers.iter().map(|c| if *c == "full" { vec![None; 4] } else { vec![] }).collect();
        doc.push(vec![]);
        let mut contents = vec![];
        // The server's styles are in the head.
        for (mgr, keys) in cfg.served.iter().enumerate() {
            for key in keys {
                let serial = contents.len();
                contents.push(Content { serial, mgr, key: *key, registered: true });
                doc.last_mut().unwrap().push(Some(serial));
            }
        }
        World {
            cfg: Rc::new(cfg.clone()),
            mgr_alive: vec![true; cfg.mgrs.len()],
            next: contents.len(),
            contents,
            handles: vec![None; cfg.handles],
            doc,
        }
    }
    pub fn content(&self, serial: usize) -> Option<&Content> {
        self.contents.iter().find(|c| c.serial == serial)
    }
    fn place(&self, mgr: usize) -> usize {
        self.cfg.mgrs[mgr].container.unwrap_or(self.cfg.containers.len())
    }
    /// Removes styles nothing refers to.
    fn sweep(&mut self) {
        let handles = self.handles.clone();
        let alive: Vec<bool> = self.contents.iter().map(|c| handles.contains(&Some(c.serial)) || c.registered).collect();
        let mut i = 0;
        let mut gone = vec![];
        self.contents.retain(|c| {
            i += 1;
            if !alive[i - 1] {
                gone.push(c.serial);
            }
            alive[i - 1]
        });
        for l in &mut self.doc {
            l.retain(|e| e.map(|s| !gone.contains(&s)).unwrap_or(true));
        }
    }
    pub fn registered(&self, mgr: usize, key: usize) -> Option<usize> {
        self.contents.iter().find(|c| c.registered && c.mgr == mgr && c.key == key).map(|c| c.serial)
    }
}

impl Model for World {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for h in 0..self.handles.len() {
            // Handles are filled in order; the names of handles do not matter.
            let first_free = self.handles.iter().position(|x| x.is_none());
            if first_free == Some(h) || (first_free.is_none() && h == 0) {
                for mgr in 0..self.mgr_alive.len() {
                    if self.mgr_alive[mgr] {
                        for key in 0..self.cfg.keys.len() {
                            v.push(Op::New { h, mgr, key });
                        }
                    }
                }
            }
            if self.handles[h].is_some() {
                v.push(Op::Drop { h });
                v.push(Op::Unreg { h });
                if let (Some(to), true) = (first_free, self.cfg.clone) {
                    v.push(Op::Clone { from: h, to });
                }
            }
        }
        // Loading the data again is for managers that still have all of it.
        for (mgr, keys) in self.cfg.served.iter().enumerate() {
            let first: usize = self.cfg.served[..mgr].iter().map(|k| k.len()).sum();
            if self.mgr_alive[mgr] && (0..keys.len()).all(|k| self.registered(mgr, keys[k]) == Some(first + k)) {
                v.push(Op::Load { mgr });
            }
        }
        if self.cfg.drop_mgr {
            for mgr in 0..self.mgr_alive.len() {
                if self.mgr_alive[mgr] && !self.cfg.mgrs[mgr].default {
                    v.push(Op::DropMgr { mgr });
                }
            }
        }
        v
    }
    fn apply(&mut self, op: &Op) {
        match *op {
            Op::New { h, mgr, key } => {
                let s = match self.registered(mgr, key) {
                    Some(s) => s,
                    None => {
                        let serial = self.next;
                        self.next += 1;
                        self.contents.push(Content { serial, mgr, key, registered: true });
                        let p = self.place(mgr);
                        if self.cfg.mgrs[mgr].append.unwrap_or(true) {
                            self.doc[p].push(Some(serial));
                        } else {
                            self.doc[p].insert(0, Some(serial));
                        }
                        serial
                    }
                };
                self.handles[h] = Some(s);
            }
            Op::Clone { from, to } => self.handles[to] = self.handles[from],
            Op::Load { .. } => {}
            Op::Drop { h } => self.handles[h] = None,
            Op::Unreg { h } => {
                let s = self.handles[h].unwrap();
                // A style that has been unregistered before stays as it is.
                let alive = &self.mgr_alive;
                if let Some(c) = self.contents.iter_mut().find(|c| c.serial == s && alive[c.mgr]) {
                    c.registered = false;
                }
            }
            Op::DropMgr { mgr } => {
                self.mgr_alive[mgr] = false;
                for c in &mut self.contents {
                    if c.mgr == mgr {
                        c.registered = false;
                    }
                }
            }
        }
        self.sweep();
    }
    fn canon(&self) -> String {
        // Serial numbers renamed by order of first appearance.
        let mut names: BTreeMap<usize, usize> = BTreeMap::new();
        let mut name = |s: usize| {
            let n = names.len();
            *names.entry(s).or_insert(n)
        };
        let doc: Vec<Vec<Option<usize>>> = self.doc.iter().map(|l| l.iter().map(|e| e.map(&mut name)).collect()).collect();
        let handles: Vec<Option<usize>> = self.handles.iter().map(|e| e.map(&mut name)).collect();
        let mut cs: Vec<(usize, usize, usize, bool)> = self.contents.iter().map(|c| (name(c.serial), c.mgr, c.key, c.registered)).collect();
        cs.sort();
        format!("{:?} {doc:?} {handles:?} {cs:?}", self.mgr_alive)
    }
}

pub struct Browser {
    cfg: Rc<Cfg>,
    /// Serial -> identifier, learned when the style is created.
    ids: BTreeMap<usize, String>,
    foreign: Vec<Vec<Child_>>,
    data: Vec<Value>,
    /// What built managers say of themselves and should say.
    said: Vec<(Value, Value)>,
}

pub fn sem(s: &str) -> String {
    match flatten(s) {
        Ok(f) => mck::css::show(&mck::csstok::lenient(&f)),
        Err(e) => format!("unparseable: {e}"),
    }
}

/// Renders styles on a server: the data, the markup and the identifiers.
fn serve(prefix: &'static str, keys: &[(usize, bool)]) -> (Value, (String, Vec<String>)) {
    let (w, r) = stylist::manager::render_static();
    let m = stylist::manager::StyleManager::builder().prefix(prefix.into()).writer(w).build().unwrap();
    for (css, global) in keys {
        if *global {
            stylist::GlobalStyle::new_with_manager(css_of(*css).0, m.clone()).unwrap();
        } else {
            stylist::Style::new_with_manager(css_of(*css).0, m.clone()).unwrap();
        }
    }
    drop(m);
    let d = r.read_style_data();
    let mut s = String::new();
    d.write_static_markup(&mut s).unwrap();
    (serde_json::to_value(&d).unwrap(), (s, crate::tree::entries(&d).into_iter().map(|e| e.id).collect()))
}

impl Browser {
    pub fn start(w: &World) -> Browser {
        let cfg = w.cfg.clone();
        let mut ids = BTreeMap::new();
        let mut data = vec![];
        let mut head = String::new();
        for (mgr, keys) in cfg.served.iter().enumerate() {
            let (d, l) = serve(cfg.mgrs[mgr].prefix, &keys.iter().map(|k| cfg.keys[*k]).collect::<Vec<_>>());
            head.push_str(&l.0);
            for id in l.1 {
                ids.insert(ids.len(), id);
            }
            data.push(d);
        }
        page_with(json!({"width": 1000, "containers": cfg.containers, "head": head}));
        let mut said = vec![];
        for (i, m) in cfg.mgrs.iter().enumerate() {
            let r = if let Some(calls) = &m.calls {
                let l: Vec<Value> = calls
                    .iter()
                    .map(|c| match c {
                        Call::Prefix(p) => json!(["prefix", p]),
                        Call::Container(k) => json!(["container", k]),
                        Call::Append(a) => json!(["append", a]),
                    })
                    .collect();
                let r = cmd(json!({"op": "build", "slot": i, "calls": l, "containers": cfg.containers.len()})).expect("manager");
                let container = m.container.map(|c| c.to_string()).unwrap_or("other".into());
                said.push((r["ok"].clone(), json!({"prefix": m.prefix, "container": container})));
                Ok(r)
            } else if m.default {
                cmd(json!({"op": "defmgr", "slot": i}))
            } else {
                cmd(json!({"op": "mgr", "slot": i, "prefix": m.prefix, "container": m.container, "append": m.append}))
            };
            r.expect("manager");
        }
        for (mgr, d) in data.iter().enumerate() {
            cmd(json!({"op": "load", "mgr": mgr, "data": d})).expect("load");
        }
        let s = snap();
        let mut foreign: Vec<Vec<Child_>> = s.containers.clone();
        foreign.push(s.head);
        Browser { cfg, ids, foreign, data, said }
    }
    pub fn command(&self, op: &Op) -> Value {
        match *op {
            Op::New { h, mgr, key } => {
                let (css, global) = self.cfg.keys[key];
                let mut c = json!({"op": "new", "h": h, "mgr": mgr, "css": css_of(css).0, "global": global});
                if self.cfg.mgrs[mgr].default {
                    // Default-constructed styles go to the default manager.
                    c["mgr"] = Value::Null;
                }
                c
            }
            Op::Clone { from, to } => json!({"op": "clone", "h": from, "to": to}),
            Op::Drop { h } => json!({"op": "drop", "h": h}),
            Op::Unreg { h } => json!({"op": "unreg", "h": h}),
            Op::DropMgr { mgr } => json!({"op": "dropmgr", "slot": mgr}),
            Op::Load { mgr } => json!({"op": "load", "mgr": mgr, "data": self.data[mgr]}),
        }
    }
    fn expect_css(&self, w: &World, serial: usize, id: &str) -> String {
        let c = w.content(serial).unwrap();
        let (css, global) = self.cfg.keys[c.key];
        sem(&if global { css_of(css).2.to_string() } else { css_of(css).1.replace("{}", id) })
    }
    /// Checks a successful creation.
    pub fn created(&mut self, r: &Value, w: &World, h: usize) -> Result<(), Fail> {
        let s = w.handles[h].unwrap();
        let c = w.content(s).unwrap();
        if r.get("err").is_some() {
            return fail("creation refused", r.to_string());
        }
        let css = r["css"].as_str().unwrap();
        if let Some(class) = r["ok"].as_str() {
            if let Some(known) = self.ids.get(&s) {
                if known != class {
                    return fail("same style, another class", format!("{known} then {class}"));
                }
            } else {
                if self.ids.values().any(|i| i == class) {
                    return fail("class used twice", class.to_string());
                }
                if !class.starts_with(&format!("{}-", self.cfg.mgrs[c.mgr].prefix)) {
                    return fail("class without its prefix", class.to_string());
                }
                self.ids.insert(s, class.to_string());
            }
            let want = self.expect_css(w, s, class);
            if sem(css) != want {
                return fail("wrong CSS", format!("{css}\nexpected {want}"));
            }
        }
        Ok(())
    }
    /// The document holds exactly what the model says; `ghosts`: elements of dead styles are tolerated.
    pub fn document(&mut self, w: &World, ghosts: bool) -> Result<Snap, Fail> {
        let s = snap();
        let mut lists = s.containers.clone();
        lists.push(s.head.clone());
        for (k, (have, want)) in lists.iter().zip(&w.doc).enumerate() {
            let place = if k < w.cfg.containers.len() { w.cfg.containers[k] } else { "head" };
            let mut foreign = self.foreign[k].iter();
            let mut wi = 0;
            let err = |m: &str| {
                let ids: Vec<String> = want
                    .iter()
                    .map(|e| e.map(|s| self.ids.get(&s).cloned().unwrap_or_else(|| format!("style #{s}"))).unwrap_or_else(|| "foreign".into()))
                    .collect();
                (
                    format!("{m} in container {place}"),
                    format!("document has {:?}\nexpected {ids:?}", have.iter().map(|c| c.style.clone().unwrap_or_else(|| c.tag.clone())).collect::<Vec<_>>()),
                )
            };
            let mut learned = vec![];
            for c in have {
                let is_ours = c.style.is_some();
                match want.get(wi) {
                    Some(None) if !is_ours => {
                        if foreign.next() != Some(c) {
                            return Err(err("foreign nodes changed"));
                        }
                        wi += 1;
                    }
                    Some(Some(serial)) if is_ours => {
                        let id = c.style.clone().unwrap();
                        let known = self.ids.get(serial);
                        let matches = match known {
                            Some(k) => *k == id,
                            None => !self.ids.values().any(|v| *v == id),
                        };
                        if !matches {
                            if ghosts {
                                continue;
                            }
                            return Err(err("wrong element or order"));
                        }
                        if c.tag != "style" {
                            return Err(err("not a style element"));
                        }
                        let cc = w.content(*serial).unwrap();
                        let (_, global) = self.cfg.keys[cc.key];
                        let p = self.cfg.mgrs[cc.mgr].prefix;
                        let start = if global { format!("{p}-global-") } else { format!("{p}-") };
                        if !id.starts_with(&start) {
                            return Err(err(&format!("identifier {id} does not start with {start}")));
                        }
                        let want_css = self.expect_css(w, *serial, &id);
                        if sem(&c.text) != want_css {
                            return fail(format!("wrong text in an element in container {place}"), format!("{}\nexpected {want_css}", c.text));
                        }
                        if known.is_none() {
                            learned.push((*serial, id));
                        }
                        wi += 1;
                    }
                    _ => {
                        if ghosts && is_ours {
                            continue;
                        }
                        return Err(err("surplus element"));
                    }
                }
            }
            if wi < want.len() {
                return Err(err("missing element"));
            }
            self.ids.extend(learned);
        }
        Ok(s)
    }
    /// Existing handles still answer.
    pub fn readable(&self, w: &World) -> Result<(), Fail> {
        for (h, s) in w.handles.iter().enumerate() {
            let Some(s) = s else { continue };
            let r = cmd(json!({"op": "read", "h": h}))?;
            let id = self.ids.get(s).cloned().unwrap_or_default();
            if let Some(c) = r["ok"].as_str() {
                if c != id {
                    return fail("class changed", format!("{id} to {c}"));
                }
            }
            let want = self.expect_css(w, *s, &id);
            if sem(r["css"].as_str().unwrap()) != want {
                return fail("CSS changed", r["css"].to_string());
            }
        }
        Ok(())
    }
    /// Everything is dropped: nothing of it may stay, neither elements nor references to nodes.
    pub fn end(&mut self, w: &World, ghosts: bool) -> Result<(), Fail> {
        let mut w = w.clone();
        let mut c = vec![];
        for h in 0..w.handles.len() {
            if w.handles[h].is_some() {
                c.push(Op::Drop { h });
            }
        }
        for mgr in 0..w.mgr_alive.len() {
            if w.mgr_alive[mgr] {
                c.push(Op::DropMgr { mgr });
            }
        }
        // Drop handles first or managers first, depending on the state, so that both orders occur.
        if w.contents.len() % 2 == 1 {
            c.reverse();
        }
        for op in c {
            if let Op::DropMgr { mgr } = op {
                cmd(self.command(&op))?;
                if self.cfg.mgrs[mgr].default {
                    // The thread keeps its default manager.
                    continue;
                }
            } else {
                cmd(self.command(&op))?;
            }
            w.apply(&op);
        }
        self.document(&w, ghosts)?;
        Ok(())
    }
}

impl Impl<World> for Browser {
    fn step(&mut self, op: &Op, _before: &World, after: &World) -> Result<(), Fail> {
        if let Some((have, want)) = self.said.iter().find(|s| s.0 != s.1) {
            return fail("a manager's prefix or container is not what was set", format!("{have} instead of {want}"));
        }
        let r = cmd(self.command(op))?;
        if let Op::New { h, .. } = op {
            self.created(&r, after, *h)?;
        }
        Ok(())
    }
    fn observe(&mut self, m: &World) -> Result<(), Fail> {
        self.document(m, false)?;
        self.readable(m)
    }
    fn finish(&mut self, m: &World) -> Result<(), Fail> {
        self.end(m, false)
    }
}

fn m(container: Option<usize>, prefix: &'static str, append: Option<bool>) -> MgrCfg {
    MgrCfg { container, prefix, append, default: false, calls: None }
}

pub fn configs() -> Vec<(&'static str, Cfg)> {
    let base = Cfg { containers: vec![], mgrs: vec![], keys: vec![(0, false), (1, false), (0, true)], handles: 2, drop_mgr: true, clone: true, served: vec![] };
    let one = |c: &'static str, append: Option<bool>| Cfg { containers: vec![c], mgrs: vec![m(Some(0), "stylist", append)], ..base.clone() };
    vec![
        ("append to a div", one("div", None)),
        ("append after foreign nodes", one("full", Some(true))),
        ("prepend to an empty div", one("div", Some(false))),
        ("prepend before foreign nodes", one("full", Some(false))),
        ("append to a shadow root", one("shadow", None)),
        ("prepend to a shadow root", one("shadow", Some(false))),
        ("head of another document", one("iframe", None)),
        ("detached element", one("detached", None)),
        ("document head", Cfg { mgrs: vec![m(None, "my_app", None)], ..base.clone() }),
        ("default manager", Cfg { mgrs: vec![MgrCfg { container: None, prefix: "stylist", append: None, default: true, calls: None }], ..base.clone() }),
        (
            "two managers, one container, one prefix",
            Cfg { containers: vec!["full"], mgrs: vec![m(Some(0), "a", None), m(Some(0), "a", Some(false))], keys: vec![(0, false), (0, true)], ..base.clone() },
        ),
        (
            "two managers, shadow root and document",
            Cfg { containers: vec!["shadow"], mgrs: vec![m(Some(0), "a", None), m(None, "a", None)], keys: vec![(0, false), (1, false)], ..base.clone() },
        ),
        (
            "default manager and another in the head",
            Cfg {
                mgrs: vec![MgrCfg { container: None, prefix: "stylist", append: None, default: true, calls: None }, m(None, "stylist", Some(false))],
                keys: vec![(0, false), (0, true)],
                ..base.clone()
            },
        ),
    ]
}

pub fn served() -> Vec<(&'static str, Cfg)> {
    let base = Cfg { containers: vec!["div"], mgrs: vec![m(Some(0), "stylist", None)], keys: vec![(0, false), (1, false), (0, true)], handles: 2, drop_mgr: true, clone: false, served: vec![] };
    let s = |served: Vec<Vec<usize>>| Cfg { served, ..base.clone() };
    vec![
        ("server had nothing", s(vec![vec![]])),
        ("server had one style", s(vec![vec![0]])),
        ("server had a global style", s(vec![vec![2]])),
        ("server had everything", s(vec![vec![2, 1, 0]])),
        ("server's styles and the manager in the head", Cfg { containers: vec![], mgrs: vec![m(None, "my_app", None)], ..s(vec![vec![0, 2]]) }),
        ("server's styles and a prepending manager in the head", Cfg { containers: vec![], mgrs: vec![m(None, "my_app", Some(false))], ..s(vec![vec![0, 1]]) }),
        ("server's styles and the default manager", Cfg { containers: vec![], mgrs: vec![MgrCfg { container: None, prefix: "stylist", append: None, default: true, calls: None }], ..s(vec![vec![1, 2]]) }),
        (
            "two managers with data, one prefix",
            Cfg { containers: vec!["shadow"], mgrs: vec![m(Some(0), "a", None), m(None, "a", None)], keys: vec![(0, false), (0, true)], ..s(vec![vec![0], vec![0, 1]]) },
        ),
        (
            "two managers, one with data",
            Cfg { containers: vec!["div"], mgrs: vec![m(Some(0), "a", None), m(Some(0), "b", Some(false))], keys: vec![(0, false), (0, true)], ..s(vec![vec![0, 1]]) },
        ),
    ]
}

/// Many styles in the managers of a page: created in one order, partly dropped, unregistered, and
/// created again in another.
fn many(t: bool, all: Vec<(&'static str, Cfg)>) -> Space {
    let sizes: &[usize] = if t { &[5, 7, 8, 14, 15, 16, 17, 28, 29, 33, 57, 65, 129] } else { &[8, 15, 29] };
    let (nc, ns) = (all.len(), sizes.len());
    let all = Rc::new(all);
    let a2 = all.clone();
    let dec = move |i: u64| {
        let mut d = Digits(i);
        (d.take(nc), d.take(2), d.take(3), sizes[d.take(ns)])
    };
    let d2 = dec.clone();
    scripts(
        "many styles",
        (nc * 6 * ns) as u64,
        move |i| {
            let (c, rev, skip, n) = dec(i);
            let old = &all[c].1;
            let keys: Vec<(usize, bool)> = (0..n).map(|k| (k, k % 3 == 2)).collect();
            let served = old.served.iter().map(|l| (0..n).filter(|k| l.contains(&(k % old.keys.len()))).collect()).collect();
            let cfg = Cfg { keys, handles: n + 1, clone: false, served, ..old.clone() };
            let nm = cfg.mgrs.len();
            let w = World::new(&cfg);
            let back = |k: usize| if rev == 1 { n - 1 - k } else { k };
            let mut ops: Vec<Op> = (0..n).map(|k| Op::New { h: k, mgr: k % nm, key: k }).collect();
            ops.extend((0..n).map(back).filter(|k| k % (skip + 2) == 0).map(|h| Op::Unreg { h }));
            ops.extend((0..n).map(back).filter(|k| k % (skip + 1) == 0).map(|h| Op::Drop { h }));
            ops.extend((0..n).map(back).map(|k| Op::New { h: n, mgr: (k + skip) % nm, key: k }));
            ops.extend((0..n).filter(|k| k % (skip + 1) == 0).map(back).map(|k| Op::New { h: back(k), mgr: back(k) % nm, key: back(k) }));
            if nm > 1 {
                ops.push(Op::DropMgr { mgr: 1 });
            }
            (w, ops)
        },
        Browser::start,
        move |i| format!("{} {:?}", a2[dec_name(i, nc)].0, d2(i)),
    )
}
fn dec_name(i: u64, nc: usize) -> usize {
    (i % nc as u64) as usize
}

/// C16: what the browser does with a server's styles.
pub fn c16(tier: Tier) -> Check {
    let (d, n) = match tier {
        Tier::Quick => (3, 300),
        Tier::Thorough => (5, 4000),
    };
    let mut spaces = vec![];
    for (name, cfg) in served() {
        let w = World::new(&cfg);
        spaces.push(histories(name, d, w.clone(), Browser::start));
        spaces.push(states(name, 9, n, w, Browser::start));
    }
    spaces.push(many(tier == Tier::Thorough, served()));
    spaces.extend(crate::tree::applications(tier == Tier::Thorough));
    Check {
        property: "C16",
        level: "model_checking",
        rule: "distinct client histories in the browser after loading a server's serialized data and markup, and distinct component trees under providers that a server rendered and the browser hydrates: same classes, no new style elements".into(),
        bounds: format!("9 combinations of server styles and client managers; all histories of {d} operations; every operation in the first {n} model states"),
        assumptions: ASSUME.iter().map(|s| s.to_string()).collect(),
        spaces,
    }
}

pub const ASSUME: &[&str] = &[
    "the DOM is h-dom/js/dom.js, a model of the parts of the DOM standard stylist uses, with its argument checks",
    "the wasm32 build runs in node under h-dom/js/glue.js, which interprets the module's own wasm-bindgen metadata",
];

pub fn c11(tier: Tier) -> Check {
    let mut spaces = vec![];
    let (d, n) = match tier {
        Tier::Quick => (3, 400),
        Tier::Thorough => (4, 6000),
    };
    for (name, cfg) in configs() {
        let w = World::new(&cfg);
        spaces.push(histories(name, d, w.clone(), Browser::start));
        spaces.push(states(name, 8, n, w, Browser::start));
    }
    spaces.push(many(tier == Tier::Thorough, configs()));
    // Creating and dropping again and again keeps nothing.
    let cs = Rc::new(configs());
    let c2 = cs.clone();
    spaces.push(Space::new(
        "repetition",
        cs.len() as u64,
        move |i, rec| {
            let (name, cfg) = &cs[i as usize];
            let go = || -> Result<(), Fail> {
                let w = World::new(cfg);
                let mut b = Browser::start(&w);
                let mut lives = vec![];
                for _ in 0..12 {
                    for key in 0..cfg.keys.len() {
                        let mut w = w.clone();
                        b.ids.clear();
                        for op in [Op::New { h: 0, mgr: 0, key }, Op::New { h: 1, mgr: 0, key }, Op::Drop { h: 1 }, Op::Unreg { h: 0 }, Op::Drop { h: 0 }] {
                            let before = w.clone();
                            w.apply(&op);
                            b.step(&op, &before, &w)?;
                            b.document(&w, false)?;
                        }
                    }
                    lives.push(snap().live);
                }
                if lives[11] > lives[3] {
                    return fail("references to document nodes pile up", format!("{lives:?}"));
                }
                Ok(())
            };
            rec.eval();
            rec.trace();
            match go() {
                Ok(()) => {
                    rec.distinct(&format!("repetition {name}"));
                    rec.step("start", &format!("12 rounds: {name}"), "start");
                }
                Err(e) => rec.violation(e.0, e.1),
            }
        },
        move |i| format!("repetition: {}", c2[i as usize].0),
    ));
    Check {
        property: "C11",
        level: "model_checking",
        rule: "distinct operation histories (create, clone, drop, unregister, drop manager) whose every intermediate document was compared with the model".into(),
        bounds: format!("all histories of {d} operations over 2 handles, 1-2 managers, 2-3 styles in 13 page set-ups; plus every operation in the first {n} reachable model states (depth up to 8)"),
        assumptions: ASSUME.iter().map(|s| s.to_string()).collect(),
        spaces,
    }
}

pub fn c13(tier: Tier) -> Check {
    let mut spaces = vec![];
    let (d, n) = match tier {
        Tier::Quick => (4, 600),
        Tier::Thorough => (5, 8000),
    };
    for (name, cfg) in configs().into_iter().filter(|c| c.1.mgrs.len() > 1) {
        let cfg = Cfg { clone: false, ..cfg };
        let w = World::new(&cfg);
        spaces.push(histories(name, d, w.clone(), Browser::start));
        spaces.push(states(name, 9, n, w, Browser::start));
    }
    Check {
        property: "C13",
        level: "model_checking",
        rule: "distinct histories over two managers with equal prefixes and stylesheets".into(),
        bounds: format!("all histories of {d} operations in 3 two-manager pages; every operation in the first {n} model states"),
        assumptions: ASSUME.iter().map(|s| s.to_string()).collect(),
        spaces,
    }
}

/// C24: managers are what their builders were told.
pub fn c24(tier: Tier) -> Check {
    let l = if tier == Tier::Thorough { 5 } else { 3 };
    const CALLS: &[Call] = &[
        Call::Prefix("a"),
        Call::Prefix("b-c"),
        Call::Container(0),
        Call::Container(1),
        Call::Append(true),
        Call::Append(false),
    ];
    let k = CALLS.len() as u64;
    let n = seq_count(k, 0, l);
    let cfg = move |i: u64, twin: bool| {
        let calls: Vec<Call> = seq_decode(i, k, 0, l).into_iter().map(|c| CALLS[c]).collect();
        let mut m = MgrCfg { container: None, prefix: "stylist", append: None, default: false, calls: None };
        for c in &calls {
            match c {
                Call::Prefix(p) => m.prefix = p,
                Call::Container(k) => m.container = Some(*k),
                Call::Append(a) => m.append = Some(*a),
            }
        }
        let m = MgrCfg { calls: Some(calls), ..m };
        let mgrs = if twin { vec![m.clone(), m] } else { vec![m] };
        Cfg { containers: vec!["full", "shadow"], mgrs, keys: vec![(0, false), (1, false), (0, true)], handles: 4, drop_mgr: true, clone: false, served: vec![] }
    };
    let script = move |i: u64| {
        let c = cfg(i / 2, i % 2 == 1);
        let nm = c.mgrs.len();
        let mut ops: Vec<Op> = (0..3).flat_map(|key| (0..nm).map(move |mgr| Op::New { h: (key + mgr) % 4, mgr, key })).collect();
        ops.push(Op::Unreg { h: 1 });
        ops.push(Op::New { h: 3, mgr: 0, key: 1 });
        ops.push(Op::New { h: 1, mgr: 0, key: 0 });
        ops.push(Op::DropMgr { mgr: 0 });
        (World::new(&c), ops)
    };
    let copies = Space::new(
        "copies",
        n * 4,
        move |i, rec| {
            let c = cfg(i / 4, false);
            let w = World::new(&c);
            let go = || -> Result<(), Fail> {
                let mut b = Browser::start(&w);
                cmd(json!({"op": "copymgr", "from": 0, "slot": 7, "ref": i % 2 == 1}))?;
                cmd(json!({"op": "build", "slot": 8, "calls": []}))?;
                cmd(json!({"op": "defmgr", "slot": 9}))?;
                cmd(json!({"op": "defmgr", "slot": 10}))?;
                for (a, b, same) in [(0, 7, true), (7, 0, true), (0, 8, false), (0, 9, false), (8, 9, false), (9, 10, true)] {
                    if cmd(json!({"op": "samemgr", "a": a, "b": b}))?["ok"] != json!(same) {
                        return fail("equality of managers", format!("{a} and {b} should be equal: {same}"));
                    }
                }
                // Either name leads to the same styles, and either keeps the manager.
                let mut w = w.clone();
                for key in 0..3 {
                    for (h, mgr) in [(0, 0), (1, 7)] {
                        let (css, global) = c.keys[key];
                        let r = cmd(json!({"op": "new", "h": h, "mgr": mgr, "css": css_of(css).0, "global": global}))?;
                        w.apply(&Op::New { h, mgr: 0, key });
                        b.created(&r, &w, h)?;
                        b.document(&w, false)?;
                    }
                }
                let (first, second) = if i / 2 % 2 == 0 { (0, 7) } else { (7, 0) };
                cmd(json!({"op": "dropmgr", "slot": first}))?;
                b.document(&w, false)?;
                cmd(json!({"op": "dropmgr", "slot": second}))?;
                w.apply(&Op::DropMgr { mgr: 0 });
                b.document(&w, false)?;
                for h in 0..2 {
                    cmd(json!({"op": "drop", "h": h}))?;
                    w.apply(&Op::Drop { h });
                    b.document(&w, false)?;
                }
                Ok(())
            };
            rec.eval();
            rec.trace();
            match go() {
                Ok(()) => {
                    rec.distinct(&format!("copies {i}"));
                    rec.step("built", &format!("copies {:?}", c.mgrs[0].calls), "gone");
                }
                Err(e) => rec.violation(e.0, format!("{:?}\n{}", c.mgrs[0].calls, e.1)),
            }
        },
        move |i| format!("copies of a manager from {:?}", cfg(i / 4, false).mgrs[0].calls),
    );
    Check {
        property: "C24",
        level: "model_checking",
        rule: "every sequence of builder calls up to the bound: what the manager says of itself, and the document under histories of one and two managers built so and of copies of a manager; distinct by sequence and history".into(),
        bounds: format!("sequences of {l} of {k} builder calls"),
        assumptions: ASSUME.iter().map(|s| s.to_string()).collect(),
        spaces: vec![
            scripts("builder calls", n * 2, script, Browser::start, move |i| format!("{:?}", script(i).0.cfg.mgrs)),
            copies,
        ],
    }
}

/// C12: every operation of every reachable state, with every browser operation failing.
pub fn c12(tier: Tier) -> Check {
    let n = match tier {
        Tier::Quick => 120,
        Tier::Thorough => 1500,
    };
    let mut spaces = vec![];
    for (name, cfg) in configs().into_iter().chain(served()) {
        let w0 = World::new(&cfg);
        let all = Rc::new(reach(&w0, n));
        let a2 = all.clone();
        let a3 = all.clone();
        let w1 = w0.clone();
        spaces.push(Space::new(
            name,
            all.len() as u64,
            move |i, rec| {
                let (ops, st) = &all[i as usize];
                for op in st.ops() {
                    // Replacing a handle is a creation and a drop, which occur separately.
                    if matches!(op, Op::New { h, .. } if st.handles[h].is_some()) {
                        continue;
                    }
                    faults(&w1, ops, st, &op, rec);
                    if rec.has_violation() {
                        return;
                    }
                }
            },
            move |i| format!("{name}: state after {:?}", a2[i as usize].0),
        ));
        drop(a3);
    }
    // Building a manager.
    spaces.push(Space::new(
        "building a manager",
        2,
        |i, rec| {
            page_with(json!({"width": 1000, "containers": ["div"]}));
            let c = if i == 0 { json!({"op": "mgr", "slot": 0}) } else { json!({"op": "mgr", "slot": 0, "container": 0}) };
            for k in 0..20 {
                match cmd_fault(&c, json!({"at": k})) {
                    Err(e) => return rec.violation(e.0, e.1),
                    Ok(r) => {
                        rec.eval();
                        rec.trace();
                        rec.distinct(&format!("build {i} {k}"));
                        rec.step("none", &format!("build {i} fault {k}"), if r.get("err").is_some() { "none" } else { "built" });
                        let fired = !r["fired"].as_array().unwrap().is_empty();
                        if !fired {
                            if r.get("err").is_some() {
                                rec.violation("manager refused without a failure", r.to_string());
                            }
                            break;
                        }
                    }
                }
            }
            if let Err(e) = cmd(json!({"op": "new", "h": 0, "mgr": 0, "css": "color: red;"})) {
                rec.violation(e.0, e.1)
            }
        },
        |i| format!("build {i}"),
    ));
    Check {
        property: "C12",
        level: "model_checking",
        rule: "distinct (history, operation, failing browser call) triples".into(),
        bounds: format!("every operation in the first {n} reachable states of 13 page set-ups and 9 with a server's styles, with each single browser call failing and with all calls from it on failing; then the operation again without failures and one more operation"),
        assumptions: ASSUME.iter().map(|s| s.to_string()).collect(),
        spaces,
    }
}

fn reach(w0: &World, max: usize) -> Vec<(Vec<Op>, World)> {
    let mut seen = std::collections::HashSet::new();
    let mut q = std::collections::VecDeque::new();
    let mut all = vec![];
    seen.insert(w0.canon());
    q.push_back((vec![], w0.clone()));
    while let Some((ops, w)) = q.pop_front() {
        for op in w.ops() {
            let mut n = w.clone();
            n.apply(&op);
            if seen.len() < max && seen.insert(n.canon()) {
                let mut o: Vec<Op> = ops.clone();
                o.push(op);
                q.push_back((o, n));
            }
        }
        all.push((ops, w));
    }
    all
}

fn faults(w0: &World, ops: &[Op], st: &World, op: &Op, rec: &mut Rec) {
    let creates = match *op {
        Op::New { mgr, key, .. } => st.registered(mgr, key).is_none(),
        _ => false,
    };
    for mode in ["at", "from"] {
        for k in 0..40usize {
            let label = format!("{ops:?} then {op:?} with fault {mode} {k}");
            let mut go = || -> Result<bool, Fail> {
                let mut b = Browser::start(w0);
                let mut w = w0.clone();
                for o in ops {
                    let before = w.clone();
                    w.apply(o);
                    b.step(o, &before, &w)?;
                }
                b.document(&w, false)?;
                let c = b.command(op);
                let r = cmd_fault(&c, json!({mode: k}))?;
                let fired: Vec<&str> = r["fired"].as_array().unwrap().iter().map(|f| f.as_str().unwrap()).collect();
                if fired.is_empty() {
                    return Ok(false);
                }
                // A missing neighbour is not a failure of the browser.
                if fired.iter().all(|f| f.ends_with(":null") && !f.starts_with("Window.document") && !f.starts_with("Document.")) {
                    return Ok(true);
                }
                rec.count(if creates { "faults while creating" } else { "faults in other operations" });
                let refused = r.get("err").is_some();
                let mut after = w.clone();
                if !(refused && creates) {
                    after.apply(op);
                }
                if refused {
                    if r["err"] != "web" && !r["err"].as_str().unwrap_or("").starts_with("web") {
                        return fail("another kind of error", r.to_string());
                    }
                    if !creates {
                        return fail("an operation that needs no element failed", r.to_string());
                    }
                } else if let Op::New { h, .. } = op {
                    b.created(&r, &after, *h)?;
                }
                // Nothing is left of a failed creation; elements whose removal failed may stay.
                let ghosts = !creates;
                b.document(&after, ghosts)?;
                b.readable(&after)?;
                // Again, with a working browser.
                if refused {
                    let r = cmd(c)?;
                    after.apply(op);
                    if let Op::New { h, .. } = op {
                        b.created(&r, &after, *h)?;
                    }
                    b.document(&after, false)?;
                }
                // Life goes on.
                if let Some(next) = after.ops().into_iter().find(|o| matches!(o, Op::New { .. })) {
                    let before = after.clone();
                    after.apply(&next);
                    b.step(&next, &before, &after)?;
                    b.document(&after, ghosts)?;
                }
                b.end(&after, ghosts)?;
                Ok(true)
            };
            let r = go();
            match r {
                Ok(false) => break,
                Ok(true) => {
                    rec.eval();
                    rec.trace();
                    rec.distinct(&label);
                    rec.step(&st.canon(), &format!("{op:?} {mode} {k}"), "after");
                    rec.sample(|| label.clone());
                }
                Err(e) => {
                    rec.violation(e.0, format!("{label}\n{}", e.1));
                    return;
                }
            }
        }
    }
}
