//! C09, C13, C14, C16 (and the names of C10): histories over managers, styles, handles, static
//! data and hydration, executed on the real code and compared with a plain reference model.
use mck::driver::*;
use mck::hist::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use stylist::ast::Sheet;
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};

pub struct MgrCfg {
    pub prefix: &'static str,
    pub writer: bool,
    /// The thread's default manager instead of one of its own.
    pub default: bool,
}
pub fn mgr(prefix: &'static str, writer: bool) -> MgrCfg {
    MgrCfg { prefix, writer, default: false }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Key {
    pub global: bool,
    pub prefix: &'static str,
    pub sheet: usize,
}

/// What a create operation asks for; `None` means the manager's own prefix.
#[derive(Clone, Copy)]
pub struct Want {
    pub global: bool,
    pub prefix: Option<&'static str>,
    pub sheet: usize,
}

pub struct Cfg {
    pub mgrs: Vec<MgrCfg>,
    pub sheets: Vec<&'static str>,
    /// What each manager may be asked for.
    pub wants: Vec<Vec<Want>>,
    pub slots: usize,
    pub drop_mgr: bool,
    pub unreg: bool,
    pub read: bool,
    /// Managers that load data.
    pub clients: Vec<usize>,
    pub loads: usize,
}

#[derive(Clone, Debug)]
pub enum Op {
    Create { mgr: usize, want: usize },
    /// Create and drop the handle at once.
    Touch { mgr: usize, want: usize },
    Drop { h: usize },
    Unreg { h: usize },
    DropMgr { mgr: usize },
    Read { mgr: usize },
    Load { client: usize, snap: usize, how: u8 },
}

#[derive(Clone)]
pub struct World {
    pub cfg: Rc<Cfg>,
    /// Identifier class of each registration ever made (hydrated ones share the server's).
    regs: Vec<(usize, Key, usize)>,
    nids: usize,
    registry: Vec<BTreeMap<Key, usize>>,
    alive: Vec<bool>,
    handles: Vec<Option<usize>>,
    data: Vec<Vec<(Key, usize)>>,
    snaps: Vec<Option<Vec<(Key, usize)>>>,
    loads: usize,
    refused: bool,
}

impl World {
    pub fn new(cfg: Cfg) -> World {
        let n = cfg.mgrs.len();
        World {
            registry: vec![Default::default(); n],
            alive: vec![true; n],
            handles: vec![None; cfg.slots],
            data: vec![vec![]; n],
            snaps: vec![None; n],
            regs: vec![],
            nids: 0,
            loads: 0,
            refused: false,
            cfg: Rc::new(cfg),
        }
    }
    fn key(&self, mgr: usize, want: usize) -> Key {
        let w = self.cfg.wants[mgr][want];
        Key { global: w.global, prefix: w.prefix.unwrap_or(self.cfg.mgrs[mgr].prefix), sheet: w.sheet }
    }
    fn register(&mut self, mgr: usize, key: Key) -> usize {
        if let Some(r) = self.registry[mgr].get(&key) {
            return *r;
        }
        let id = self.nids;
        self.nids += 1;
        self.regs.push((mgr, key, id));
        let r = self.regs.len() - 1;
        self.registry[mgr].insert(key, r);
        if self.cfg.mgrs[mgr].writer {
            self.data[mgr].push((key, id));
        }
        r
    }
}

impl Model for World {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        if self.refused {
            return v;
        }
        let free = self.handles.iter().any(|h| h.is_none());
        for (m, w) in self.cfg.wants.iter().enumerate() {
            if !self.alive[m] {
                continue;
            }
            for want in 0..w.len() {
                if free {
                    v.push(Op::Create { mgr: m, want });
                } else {
                    v.push(Op::Touch { mgr: m, want });
                }
            }
        }
        for (h, r) in self.handles.iter().enumerate() {
            if r.is_some() {
                v.push(Op::Drop { h });
                if self.cfg.unreg {
                    v.push(Op::Unreg { h });
                }
            }
        }
        for m in 0..self.cfg.mgrs.len() {
            if self.cfg.drop_mgr && self.alive[m] && !self.cfg.mgrs[m].default {
                v.push(Op::DropMgr { mgr: m });
            }
            if self.cfg.read && self.cfg.mgrs[m].writer && self.snaps[m].is_none() {
                v.push(Op::Read { mgr: m });
            }
        }
        if self.loads < self.cfg.loads {
            for &client in &self.cfg.clients {
                for snap in 0..self.snaps.len() {
                    if self.alive[client] && self.snaps[snap].as_ref().is_some_and(|s| !s.is_empty()) {
                        for how in 0..3 {
                            v.push(Op::Load { client, snap, how });
                        }
                    }
                }
            }
        }
        v
    }
    fn apply(&mut self, op: &Op) {
        match *op {
            Op::Create { mgr, want } => {
                let k = self.key(mgr, want);
                let r = self.register(mgr, k);
                let s = self.handles.iter().position(|h| h.is_none()).unwrap();
                self.handles[s] = Some(r);
            }
            Op::Touch { mgr, want } => {
                let k = self.key(mgr, want);
                self.register(mgr, k);
            }
            Op::Drop { h } => self.handles[h] = None,
            Op::Unreg { h } => {
                let r = self.handles[h].unwrap();
                let (mgr, key, _) = self.regs[r];
                // A manager that collects static data keeps what it has collected.
                if self.alive[mgr] && !self.cfg.mgrs[mgr].writer && self.registry[mgr].get(&key) == Some(&r) {
                    self.registry[mgr].remove(&key);
                }
            }
            Op::DropMgr { mgr } => {
                self.alive[mgr] = false;
                self.registry[mgr].clear();
            }
            Op::Read { mgr } => self.snaps[mgr] = Some(self.data[mgr].clone()),
            Op::Load { client, snap, .. } => {
                self.loads += 1;
                for (k, id) in self.snaps[snap].clone().unwrap() {
                    match self.registry[client].get(&k) {
                        Some(&r) => {
                            if self.regs[r].2 != id {
                                self.refused = true;
                                break;
                            }
                        }
                        None => {
                            self.regs.push((client, k, id));
                            self.registry[client].insert(k, self.regs.len() - 1);
                        }
                    }
                }
            }
        }
    }
    fn canon(&self) -> String {
        // Registrations and identifiers are named in order of appearance.
        let mut rn: HashMap<usize, usize> = HashMap::new();
        let mut idn: HashMap<usize, usize> = HashMap::new();
        let mut out = String::new();
        let mut id = |i: usize| {
            let n = idn.len();
            *idn.entry(i).or_insert(n)
        };
        use std::fmt::Write;
        let mut reg = |r: usize, out: &mut String| {
            let n = rn.len();
            let e = *rn.entry(r).or_insert(n);
            let (m, k, i) = self.regs[r];
            let _ = write!(out, "r{e}={m}:{}{}{}#{} ", k.global as u8, k.prefix, k.sheet, id(i));
        };
        for m in &self.registry {
            out.push('|');
            for r in m.values() {
                reg(*r, &mut out);
            }
        }
        out.push('H');
        for h in &self.handles {
            match h {
                Some(r) => reg(*r, &mut out),
                None => out.push('-'),
            }
        }
        for d in self.data.iter().chain(self.snaps.iter().flatten()) {
            out.push('D');
            for (k, i) in d {
                let _ = write!(out, "{}{}{}#{} ", k.global as u8, k.prefix, k.sheet, id(*i));
            }
        }
        let _ = write!(
            out,
            "{:?}{:?}{}{}",
            self.alive,
            self.snaps.iter().map(|s| s.is_some()).collect::<Vec<_>>(),
            self.loads,
            self.refused
        );
        out
    }
}

#[derive(Clone)]
enum H {
    S(Style),
    G(GlobalStyle),
}
impl H {
    fn id(&self) -> String {
        match self {
            H::S(s) => s.id().to_string(),
            H::G(s) => s.id().to_string(),
        }
    }
    fn css(&self) -> &str {
        match self {
            H::S(s) => s.get_style_str(),
            H::G(s) => s.get_style_str(),
        }
    }
}

pub struct Real {
    sheets: Rc<Vec<Sheet>>,
    mgrs: Vec<Option<StyleManager>>,
    readers: Vec<Option<StaticReader>>,
    handles: Vec<Option<H>>,
    snaps: Vec<Option<StyleData>>,
    /// Real identifier of each identifier class.
    ids: Vec<Option<String>>,
    seen: HashSet<String>,
    default: bool,
}

fn fail<T>(sig: &str, d: String) -> Result<T, Fail> {
    Err((sig.to_string(), d))
}

impl Real {
    pub fn start(m: &World) -> Real {
        let mut mgrs = vec![];
        let mut readers = vec![];
        for c in &m.cfg.mgrs {
            let mut b = StyleManager::builder().prefix(Cow::Borrowed(c.prefix));
            let mut rd = None;
            if c.writer {
                let (w, r) = render_static();
                b = b.writer(w);
                rd = Some(r);
            }
            mgrs.push(Some(if c.default { StyleManager::default() } else { b.build().expect("manager") }));
            readers.push(rd);
        }
        Real {
            sheets: Rc::new(m.cfg.sheets.iter().map(|s| s.parse().expect("sheet")).collect()),
            snaps: readers.iter().map(|_| None).collect(),
            mgrs,
            readers,
            handles: vec![None; m.cfg.slots],
            ids: vec![],
            seen: HashSet::new(),
            default: m.cfg.mgrs.iter().any(|m| m.default),
        }
    }
    fn create(&self, m: &World, mgr: usize, want: usize) -> Result<H, String> {
        let w = m.cfg.wants[mgr][want];
        let mg = self.mgrs[mgr].as_ref().unwrap();
        let sh = self.sheets[w.sheet].clone();
        let d = m.cfg.mgrs[mgr].default;
        let e = |e: stylist::Error| e.to_string();
        match (w.global, w.prefix, d) {
            (true, _, false) => GlobalStyle::new_with_manager(sh, mg).map(H::G).map_err(e),
            (true, _, true) => GlobalStyle::new(sh).map(H::G).map_err(e),
            (false, None, false) => Style::new_with_manager(sh, mg).map(H::S).map_err(e),
            (false, None, true) => Style::new(sh).map(H::S).map_err(e),
            (false, Some(p), false) => Style::create_with_manager(p, sh, mg).map(H::S).map_err(e),
            (false, Some(p), true) => Style::create(p, sh).map(H::S).map_err(e),
        }
    }
    fn class_of(&mut self, class: usize, real: &str) -> Result<(), Fail> {
        while self.ids.len() <= class {
            self.ids.push(None);
        }
        match &self.ids[class] {
            Some(i) if i == real => Ok(()),
            Some(i) => fail("wrong class", format!("got {real:?}, the live registration is {i:?}")),
            None => {
                if !self.seen.insert(real.to_string()) {
                    return fail("class not fresh", format!("{real:?} was already given to another registration"));
                }
                self.ids[class] = Some(real.to_string());
                Ok(())
            }
        }
    }
    fn check_handle(&mut self, m: &World, h: &H, r: usize) -> Result<(), Fail> {
        let (_, key, class) = m.regs[r];
        let id = h.id();
        self.class_of(class, &id)?;
        well_formed(&id, key)?;
        self.check_css(key, &id, h.css())
    }
    fn check_css(&self, key: Key, id: &str, css: &str) -> Result<(), Fail> {
        let want = crate::common::render(&self.sheets[key.sheet], (!key.global).then_some(id));
        if css != want {
            return fail("wrong css", format!("{key:?} {id:?} has CSS\n{css}\ninstead of\n{want}"));
        }
        Ok(())
    }
    fn check_snap(&mut self, m: &World, s: usize) -> Result<(), Fail> {
        let (Some(data), Some(want)) = (&self.snaps[s], &m.snaps[s]) else {
            return Ok(());
        };
        check_data(data, want, &self.ids, &self.sheets)
    }
}

/// Identifier: prefix, dash, CSS name characters; globals carry the marker.
pub fn well_formed(id: &str, key: Key) -> Result<(), Fail> {
    let marker = if key.global { format!("{}-global-", key.prefix) } else { format!("{}-", key.prefix) };
    let ok = id.strip_prefix(&marker).is_some_and(|r| !r.is_empty() && r.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_'));
    if ok {
        Ok(())
    } else {
        fail("malformed identifier", format!("{id:?} for {key:?}"))
    }
}

fn check_data(data: &StyleData, want: &[(Key, usize)], ids: &[Option<String>], sheets: &[Sheet]) -> Result<(), Fail> {
    let mut html = String::new();
    if data.write_static_markup(&mut html).is_err() {
        return fail("markup", "writing failed".into());
    }
    let got = match crate::sheets::style_elements(&html) {
        Ok(g) => g,
        Err(e) => return fail("markup", format!("{e}\n{html}")),
    };
    let want: Vec<(String, String)> = want
        .iter()
        .map(|(k, c)| {
            let id = ids.get(*c).cloned().flatten().unwrap_or_default();
            let css = crate::common::render(&sheets[k.sheet], (!k.global).then_some(&id));
            (id, css)
        })
        .collect();
    if got != want {
        return fail("static data", format!("contains {got:?}\ninstead of {want:?}"));
    }
    Ok(())
}

impl Impl<World> for Real {
    fn step(&mut self, op: &Op, before: &World, after: &World) -> Result<(), Fail> {
        match *op {
            Op::Create { mgr, want } | Op::Touch { mgr, want } => {
                let h = match self.create(before, mgr, want) {
                    Ok(h) => h,
                    Err(e) => return fail("creation failed", e),
                };
                let r = after.registry[mgr][&after.key(mgr, want)];
                self.check_handle(after, &h, r)?;
                if matches!(op, Op::Create { .. }) {
                    let s = before.handles.iter().position(|h| h.is_none()).unwrap();
                    self.handles[s] = Some(h);
                }
            }
            Op::Drop { h } => self.handles[h] = None,
            Op::Unreg { h } => match self.handles[h].as_ref().unwrap() {
                H::S(s) => s.unregister(),
                H::G(s) => s.unregister(),
            },
            Op::DropMgr { mgr } => self.mgrs[mgr] = None,
            Op::Read { mgr } => self.snaps[mgr] = Some(self.readers[mgr].take().unwrap().read_style_data()),
            Op::Load { client, snap, how } => {
                let d = self.snaps[snap].as_ref().unwrap();
                let d = match how {
                    0 => d.clone(),
                    1 => serde_json::from_str(&serde_json::to_string(d).expect("ser")).expect("de"),
                    _ => bincode::deserialize(&bincode::serialize(d).expect("ser")).expect("de"),
                };
                let m = self.mgrs[client].as_ref().unwrap();
                match (catch(|| m.load_style_data(&d)), after.refused) {
                    (Ok(()), false) | (Err(_), true) => {}
                    (Ok(()), true) => return fail("contradicting data accepted", String::new()),
                    (Err(p), false) => return fail("loading refused", p),
                }
            }
        }
        Ok(())
    }
    fn observe(&mut self, m: &World) -> Result<(), Fail> {
        for s in 0..self.handles.len() {
            if let (Some(h), Some(r)) = (self.handles[s].clone(), m.handles[s]) {
                self.check_handle(m, &h, r)?;
            }
        }
        for s in 0..self.snaps.len() {
            self.check_snap(m, s)?;
        }
        Ok(())
    }
    /// Creates everything once more in every manager: registered styles must come back, anything
    /// else must be fresh.  Then reads what was not read yet.
    fn finish(&mut self, m: &World) -> Result<(), Fail> {
        let mut m = m.clone();
        if !m.refused {
            for mgr in 0..m.cfg.mgrs.len() {
                if !m.alive[mgr] {
                    continue;
                }
                for want in 0..m.cfg.wants[mgr].len() {
                    let h = match self.create(&m, mgr, want) {
                        Ok(h) => h,
                        Err(e) => return fail("creation failed", e),
                    };
                    let k = m.key(mgr, want);
                    let r = m.register(mgr, k);
                    self.check_handle(&m, &h, r)?;
                }
            }
        }
        self.observe(&m)?;
        for s in 0..self.readers.len() {
            if let Some(r) = self.readers[s].take() {
                self.snaps[s] = Some(r.read_style_data());
                m.snaps[s] = Some(m.data[s].clone());
                self.check_snap(&m, s)?;
            }
        }
        if self.default {
            // The default manager outlives the history: leave it as it was found.
            let cfg = m.cfg.clone();
            for mgr in 0..cfg.mgrs.len() {
                if !cfg.mgrs[mgr].default {
                    continue;
                }
                if StyleManager::default() != *self.mgrs[mgr].as_ref().unwrap() {
                    return fail("default manager", "two default managers on one thread".into());
                }
                for want in 0..cfg.wants[mgr].len() {
                    match self.create(&m, mgr, want) {
                        Ok(H::S(s)) => s.unregister(),
                        Ok(H::G(s)) => s.unregister(),
                        Err(e) => return fail("creation failed", e),
                    }
                }
            }
        }
        Ok(())
    }
}

const A: &str = "color: red;";
const B: &str = "color: red; .x { k: v; }";
const E: &str = "";

fn w(global: bool, prefix: Option<&'static str>, sheet: usize) -> Want {
    Want { global, prefix, sheet }
}

/// Many distinct styles in one manager: every one of them again, in another order.
fn all_distinct(t: bool) -> Space {
    use mck::enumr::sheets;
    use mck::model::text;
    let l: Vec<String> = sheets(if t { 3 } else { 2 }, &crate::sheets::rich_vocab()).iter().map(text).collect();
    let prefixes: &[&'static str] = &["a", "b", "a-global", "a-b", ""];
    let cases = 24u64;
    let l = Rc::new(l);
    Space::new(
        "every style of a vocabulary in one manager, rotated",
        cases,
        move |i, rec| {
            let mg = StyleManager::builder().prefix("a".into()).build().expect("manager");
            let parsed: Vec<Sheet> = l.iter().map(|s| s.parse().expect("sheet")).collect();
            let mut ids: BTreeMap<(bool, &str, usize), String> = BTreeMap::new();
            let mut seen = HashSet::new();
            let keep: &mut Vec<H> = &mut vec![];
            for round in 0..2 {
                let off = (i as usize * 7919 * round) % parsed.len();
                for j in 0..parsed.len() {
                    let j = (j + off) % parsed.len();
                    for p in prefixes.iter().map(|p| Some(*p)).chain([None]) {
                        let h = match p {
                            Some(p) => Style::create_with_manager(p, parsed[j].clone(), &mg).map(H::S),
                            None => GlobalStyle::new_with_manager(parsed[j].clone(), &mg).map(H::G),
                        }
                        .expect("create");
                        let k = (p.is_none(), p.unwrap_or("a"), j);
                        let id = h.id();
                        rec.eval();
                        rec.distinct(&format!("{k:?}"));
                        match ids.get(&k) {
                            None => {
                                if !seen.insert(id.clone()) {
                                    rec.violation("class not fresh", format!("{k:?} {:?} got the class {id} of another style", l[j]));
                                }
                                if let Err(e) = well_formed(&id, Key { global: k.0, prefix: k.1, sheet: 0 }) {
                                    rec.violation(e.0, e.1);
                                }
                                if (i + j as u64) % 2 == 0 {
                                    keep.push(h.clone());
                                }
                                ids.insert(k, id);
                            }
                            Some(o) if *o != id => rec.violation("wrong class", format!("{k:?} {:?} was {o}, then {id}", l[j])),
                            _ => {}
                        }
                        let want = crate::common::render(&parsed[j], (!k.0).then_some(&ids[&k]));
                        if h.css() != want {
                            rec.violation("wrong css", format!("{k:?} {:?} has\n{}\ninstead of\n{want}", l[j], h.css()));
                        }
                    }
                }
            }
        },
        |i| format!("rotation {i}"),
    )
}

pub fn c09(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let full = || {
        let wants = vec![
            w(false, None, 0),
            w(false, Some("q"), 0),
            w(true, None, 0),
            w(false, None, 1),
        ];
        World::new(Cfg {
            mgrs: vec![mgr("p", false), mgr("q", false)],
            sheets: vec![A, B],
            wants: vec![wants.clone(), wants],
            slots: 3,
            drop_mgr: false,
            unreg: true,
            read: false,
            clients: vec![],
            loads: 0,
        })
    };
    let narrow = || {
        World::new(Cfg {
            mgrs: vec![mgr("p", false)],
            sheets: vec![A, E],
            wants: vec![vec![w(false, None, 0), w(true, None, 0), w(false, None, 1)]],
            slots: 3,
            drop_mgr: false,
            unreg: true,
            read: false,
            clients: vec![],
            loads: 0,
        })
    };
    Check {
        property: "C09",
        level: "model_checking",
        rule: "every history of create, drop and unregister operations up to the bound from scratch, every reachable model state with every operation, every style of a vocabulary in one manager, and every pair of creations through any two ways of giving the text; after every step every live handle's class and CSS are compared with the reference model, at the end every style is created once more; distinct by history".into(),
        bounds: format!("2 managers x 4 styles, 3 handles, histories of {}; 1 manager x 3 styles, histories of {}; states to depth {}", if t {5} else {4}, if t {7} else {6}, if t {12} else {9}),
        assumptions: vec!["random identifiers do not collide by chance (62^8)".into()],
        spaces: vec![
            histories("two managers", if t { 5 } else { 4 }, full(), Real::start),
            histories("one manager", if t { 7 } else { 6 }, narrow(), Real::start),
            states("two managers", if t { 12 } else { 8 }, if t { 60_000 } else { 12_000 }, full(), Real::start),
            states("one manager", 12, if t { 60_000 } else { 20_000 }, narrow(), Real::start),
            all_distinct(t),
            many_registered(t),
            #[cfg(feature = "main")]
            crate::ways::mixes(t),
        ],
    }
}

pub fn c13(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let wants = || vec![w(false, None, 0), w(true, None, 0)];
    let world = |slots| {
        World::new(Cfg {
            mgrs: vec![mgr("p", false), mgr("p", false), MgrCfg { prefix: "stylist", writer: false, default: true }],
            sheets: vec![A],
            wants: vec![wants(), wants(), wants()],
            slots,
            drop_mgr: true,
            unreg: true,
            read: false,
            clients: vec![],
            loads: 0,
        })
    };
    let mixed = World::new(Cfg {
        mgrs: vec![mgr("p", true), mgr("p", false)],
        sheets: vec![A, E],
        wants: vec![wants(), vec![w(false, None, 0), w(false, None, 1)]],
        slots: 2,
        drop_mgr: true,
        unreg: true,
        read: true,
        clients: vec![1],
        loads: 1,
    });
    if !cfg!(feature = "main") {
        return Check {
            property: "C13",
            level: "model_checking",
            rule: "the same histories followed by dropping everything, repeated: the live heap must not grow (build without the debug parser, whose cache keeps every text it parsed)".into(),
            bounds: format!("memory histories of {}", if t { 5 } else { 4 }),
            assumptions: vec![],
            spaces: vec![leaks("memory: three managers", if t { 5 } else { 4 }, world(2)), leaks("memory: writer, client", if t { 6 } else { 5 }, mixed)],
        };
    }
    Check {
        property: "C13",
        level: "model_checking",
        rule: "every history of creations in two managers and the default manager, handle drops, unregistrations and manager drops; after every step every handle is compared with the reference model; distinct by history".into(),
        bounds: format!("3 managers with equal prefixes and sheets, histories of {}", if t { 6 } else { 5 }),
        assumptions: vec!["random identifiers do not collide by chance (62^8)".into()],
        spaces: vec![
            histories("three managers", if t { 6 } else { 5 }, world(2), Real::start),
            histories("writer, client", if t { 7 } else { 6 }, mixed, Real::start),
            states("three managers", if t { 12 } else { 8 }, if t { 60_000 } else { 15_000 }, world(3), Real::start),
            many_registered(t),
        ],
    }
}

/// Every history, then everything is dropped: no heap memory may stay behind.
fn leaks(name: &str, depth: usize, init: World) -> Space {
    let mut all: Vec<Vec<Op>> = vec![];
    fn walk(m: &World, ops: &mut Vec<Op>, depth: usize, out: &mut Vec<Vec<Op>>) {
        let en = if ops.len() < depth { m.ops() } else { vec![] };
        if en.is_empty() {
            out.push(ops.clone());
        }
        for op in en {
            let mut n = m.clone();
            n.apply(&op);
            ops.push(op);
            walk(&n, ops, depth, out);
            ops.pop();
        }
    }
    walk(&init, &mut vec![], depth, &mut all);
    let all = Rc::new(all);
    let a2 = all.clone();
    let one = move |ops: &[Op], rec: &mut Rec| {
        let mut m = init.clone();
        let mut i = Real::start(&init);
        for op in ops {
            let b = m.clone();
            m.apply(op);
            if let Err(e) = i.step(op, &b, &m) {
                rec.violation(e.0, e.1);
            }
        }
        let reg = m.cfg.mgrs.iter().position(|m| m.default);
        if let Some(d) = reg {
            for want in 0..m.cfg.wants[d].len() {
                match i.create(&m, d, want) {
                    Ok(H::S(s)) => s.unregister(),
                    Ok(H::G(s)) => s.unregister(),
                    Err(e) => rec.violation("creation failed", e),
                }
            }
        }
    };
    let n = all.len() as u64;
    Space::new(
        &format!("{name}: histories of {depth}"),
        n,
        move |i, rec| {
            let ops = &all[i as usize];
            rec.eval();
            rec.trace();
            // A leak grows in every window; lazily built globals and table capacities do not.
            let mut scratch = Rec::default();
            let mut grown = i64::MAX;
            for _ in 0..5 {
                let before = crate::alloc::live();
                for _ in 0..2 {
                    one(ops, &mut scratch);
                }
                grown = grown.min(crate::alloc::live() - before);
            }
            if scratch.has_violation() {
                return; // reported by the other spaces
            }
            if grown > 0 {
                rec.violation("leak", format!("{ops:?} leaves {} bytes behind per run", grown / 2));
            }
            rec.distinct(&format!("{ops:?}"));
        },
        move |i| format!("{:?}", a2[i as usize]),
    )
}

/// Names drawn for every seed of the generator, in managers, prefixes and kinds in turn.
#[cfg(feature = "main")]
fn random_names(t: bool) -> Space {
    let n: u64 = if t { 400_000 } else { 40_000 };
    Space::new(
        "random names for consecutive generator seeds",
        4,
        move |i, rec| {
            let sheet: Sheet = A.parse().expect("sheet");
            let mut seen = HashSet::new();
            let mut at: Vec<HashSet<char>> = vec![];
            let mut pairs: HashSet<(char, char)> = HashSet::new();
            let mut lens = HashSet::new();
            for seed in 0..n {
                fastrand::seed(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(i));
                let mg = StyleManager::builder().build().expect("manager");
                let global = i % 2 == 1;
                let id = if global {
                    GlobalStyle::new_with_manager(sheet.clone(), mg).expect("style").id().to_string()
                } else {
                    Style::new_with_manager(sheet.clone(), mg).expect("style").id().to_string()
                };
                rec.eval();
                rec.trace();
                rec.distinct(&id);
                if let Err(e) = well_formed(&id, Key { global, prefix: "stylist", sheet: 0 }) {
                    rec.violation(e.0, e.1);
                }
                let name: Vec<char> = id[if global { "stylist-global-" } else { "stylist-" }.len()..].chars().collect();
                lens.insert(name.len());
                for (k, c) in name.iter().enumerate() {
                    if at.len() <= k {
                        at.push(HashSet::new());
                    }
                    at[k].insert(*c);
                }
                if name.len() > 1 {
                    pairs.insert((name[0], name[name.len() - 1]));
                }
                if !seen.insert(id.clone()) {
                    rec.violation("names collide", format!("{id} was drawn twice within {n} seeds"));
                }
            }
            rec.step("drawn", "all", &format!("{:?}", lens));
            // The generator's whole output: many independent positions, each with many values.
            let space: f64 = at.iter().map(|s| (s.len() as f64).log2()).sum();
            if space < 40.0 {
                rec.violation("names diminished", format!("only {space:.0} bits of the generator's output are used: {:?}", at.iter().map(|s| s.len()).collect::<Vec<_>>()));
            }
            if pairs.len() < 1000 {
                rec.violation("positions dependent", format!("only {} combinations of first and last character", pairs.len()));
            }
            rec.sample(|| format!("values per position {:?}", at.iter().map(|s| s.len()).collect::<Vec<_>>()));
        },
        |i| format!("seeds of series {i}"),
    )
}

/// Threads that each create styles: all names differ.
fn thread_names(t: bool) -> Space {
    Space::new(
        "names of several threads",
        if t { 400 } else { 60 },
        move |i, rec| {
            let (threads, per) = (2 + (i % 3) as usize, 1 + (i / 3 % 5) as usize);
            let make = move || {
                let mut v = vec![];
                for k in 0..per {
                    let mg = StyleManager::builder().build().expect("manager");
                    let s = Style::new_with_manager(if k % 2 == 0 { A } else { B }.parse::<Sheet>().expect("sheet"), mg).expect("style");
                    v.push(s.get_class_name().to_string());
                }
                v
            };
            let hs: Vec<_> = (0..threads).map(|_| std::thread::spawn(make)).collect();
            let mut all = vec![];
            for h in hs {
                all.extend(h.join().expect("thread"));
            }
            rec.eval();
            rec.trace();
            let set: HashSet<&String> = all.iter().collect();
            if set.len() != all.len() {
                rec.violation("names collide between threads", format!("{all:?}"));
            }
        },
        |i| format!("thread case {i}"),
    )
}

pub fn c10(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let wants = || vec![w(false, None, 0), w(true, None, 0), w(false, Some("p-global"), 0), w(false, Some(""), 1)];
    let world = || {
        World::new(Cfg {
            mgrs: vec![mgr("p", false), mgr("p", true), mgr("a-b_c", false)],
            sheets: vec![A, B],
            wants: vec![wants(), vec![w(false, None, 0), w(true, None, 0)], wants()],
            slots: 2,
            drop_mgr: false,
            unreg: true,
            read: false,
            clients: vec![],
            loads: 0,
        })
    };
    let mut spaces = vec![
        histories("three managers", if t { 5 } else { 4 }, world(), Real::start),
        states("three managers", if t { 12 } else { 8 }, if t { 60_000 } else { 12_000 }, world(), Real::start),
        thread_names(t),
    ];
    #[cfg(feature = "main")]
    spaces.push(random_names(t));
    spaces.truncate(4);
    Check {
        property: "C10",
        level: "model_checking",
        rule: "every creation and unregistration history over three managers, four prefixes and both kinds: every identifier is well formed and differs from all earlier ones; in random mode additionally the identifiers for consecutive seeds of the generator; distinct by history or identifier".into(),
        bounds: format!("histories of {}; entropy mode {}", if t { 5 } else { 4 }, if cfg!(feature = "main") { "random" } else { "counter" }),
        assumptions: vec!["in random mode, uniqueness is judged up to the generator (62^8 names)".into()],
        spaces,
    }
}

pub fn c14(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let wants = || vec![w(false, None, 0), w(true, None, 0), w(false, Some("q"), 1)];
    let world = |slots, third| {
        let mut mgrs = vec![mgr("p", true), mgr("p", false)];
        let mut ws = vec![wants(), vec![w(false, None, 0)]];
        if third {
            mgrs.push(mgr("p", true));
            ws.push(vec![w(false, None, 0), w(true, None, 1)]);
        }
        World::new(Cfg {
            mgrs,
            sheets: vec![A, B],
            wants: ws,
            slots,
            drop_mgr: true,
            unreg: true,
            read: true,
            clients: vec![],
            loads: 0,
        })
    };
    Check {
        property: "C14",
        level: "model_checking",
        rule: "every history of creations, re-creations, drops, unregistrations, manager drops and reads over managers with and without a writer; after every step all data read so far is compared with the reference model (identifiers, order, CSS), at the end everything is created once more and all unread data is read; distinct by history".into(),
        bounds: format!("one writer manager and one plain manager, histories of {}; two writer managers and a plain one, histories of {}", if t {6} else {5}, if t {5} else {4}),
        assumptions: vec!["random identifiers do not collide by chance (62^8)".into(), "a static writer can be given to one manager only (it is not Clone)".into()],
        spaces: vec![
            histories("one writer", if t { 6 } else { 5 }, world(2, false), Real::start),
            histories("two writers", if t { 5 } else { 4 }, world(2, true), Real::start),
            states("two writers", if t { 12 } else { 8 }, if t { 80_000 } else { 15_000 }, world(2, true), Real::start),
            many_collected(t, false),
        ],
    }
}

pub fn c16(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let ws = || vec![w(false, None, 0), w(true, None, 0), w(false, Some("q"), 1)];
    let wc = || vec![w(false, Some("p"), 0), w(true, None, 0), w(false, Some("q"), 1), w(false, Some("p"), 1)];
    let world = |two: bool, prefix: &'static str| {
        let mut mgrs = vec![mgr("p", true), mgr(prefix, false)];
        let mut wants = vec![ws(), wc()];
        if two {
            mgrs.push(mgr("p", true));
            wants.push(vec![w(false, None, 0)]);
        }
        World::new(Cfg {
            mgrs,
            sheets: vec![A, B],
            wants,
            slots: 1,
            drop_mgr: false,
            unreg: true,
            read: true,
            clients: vec![1],
            loads: 2,
        })
    };
    Check {
        property: "C16",
        level: "model_checking",
        rule: "every history of server creations, unregistrations and reads, loads of the data read (directly, through JSON, through a binary format, repeatedly) and client creations and unregistrations; every class and CSS is compared with the reference model, and contradicting loads must panic; plus every sheet of a vocabulary through each format; distinct by history".into(),
        bounds: format!("histories of {} (one server) and {} (two servers)", if t {7} else {6}, if t {6} else {5}),
        assumptions: vec!["random identifiers do not collide by chance (62^8)".into(), "after refused data the history ends".into()],
        spaces: vec![
            histories("one server", if t { 7 } else { 6 }, world(false, "p"), Real::start),
            histories("two servers", if t { 6 } else { 5 }, world(true, "p"), Real::start),
            histories("other client prefix", if t { 6 } else { 5 }, world(false, "c"), Real::start),
            states("two servers", if t { 12 } else { 9 }, if t { 80_000 } else { 15_000 }, world(true, "p"), Real::start),
            hydrate_sheets(t),
            many_collected(t, true),
        ],
    }
}

/// Every sheet of a vocabulary, server to client.
fn hydrate_sheets(t: bool) -> Space {
    let (voc, lean) = (crate::sheets::rich_vocab(), crate::sheets::lean_vocab());
    let mut l: Vec<String> = mck::enumr::sheets(if t { 4 } else { 3 }, &voc).iter().map(mck::model::text).collect();
    l.extend(mck::enumr::sheets(5, &lean).iter().map(mck::model::text));
    l.extend(crate::sheets::atom_sheets().iter().map(mck::model::text));
    let l = Rc::new(l);
    let l2 = l.clone();
    Space::new(
        "every sheet of a vocabulary through each format",
        l.len() as u64,
        move |i, rec| {
            let css = l[i as usize].as_str();
            rec.distinct(css);
            let (wr, rd) = render_static();
            let server = StyleManager::builder().writer(wr).build().expect("manager");
            let s = Style::new_with_manager(css, &server).expect("style");
            let g = GlobalStyle::new_with_manager(css, &server).expect("global");
            let data = rd.read_style_data();
            for how in 0..3 {
                rec.eval();
                rec.trace();
                let d: StyleData = match how {
                    0 => data.clone(),
                    1 => serde_json::from_str(&serde_json::to_string(&data).expect("ser")).expect("de"),
                    _ => bincode::deserialize(&bincode::serialize(&data).expect("ser")).expect("de"),
                };
                let client = StyleManager::builder().build().expect("manager");
                client.load_style_data(&d);
                client.load_style_data(&d);
                let cs = Style::new_with_manager(css, &client).expect("style");
                let cg = GlobalStyle::new_with_manager(css, &client).expect("global");
                if cs.get_class_name() != s.get_class_name() || cg.id() != g.id() {
                    rec.violation("class not restored", format!("{css:?} ({how})"));
                }
                if cs.get_style_str() != s.get_style_str() || cg.get_style_str() != g.get_style_str() {
                    rec.violation("css not restored", format!("{css:?} ({how}):\n{}\n{}", cs.get_style_str(), cg.get_style_str()));
                }
            }
        },
        move |i| l2[i as usize].clone(),
    )
}

/// Numbers of styles at and around the points where containers grow.
fn sizes(t: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![4, 5, 7, 8, 9, 14, 15, 16, 17, 28, 29, 32, 33];
    if t {
        v.extend([3, 6, 10, 11, 12, 13, 18, 19, 20, 31, 56, 57, 63, 64, 65, 100, 112, 113, 127, 128, 129, 256, 257]);
    } else {
        v.push(65);
    }
    v
}

fn big_sheet(i: usize) -> &'static str {
    thread_local!(static L: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(vec![]) });
    L.with(|l| {
        let mut l = l.borrow_mut();
        while l.len() <= i {
            let n = l.len();
            l.push(Box::leak(
                match n % 4 {
                    0 => format!("k{n}: v;"),
                    1 => format!(".a {{ k: v{n}; }}"),
                    2 => format!("@media (a: {n}) {{ k: v; }}"),
                    _ => format!("k: v; @keyframes a {{ from {{ k: v{n}; }} }}"),
                }
                .into_boxed_str(),
            ));
        }
        l[i]
    })
}

/// A world with `n` different styles in a writer or plain manager and a client or twin.
fn big_world(n: usize, writer: bool) -> World {
    let wants = |own: bool| {
        (0..n)
            .map(|i| match i % 3 {
                0 => w(false, if own { None } else { Some("p") }, i),
                1 => w(true, None, i),
                _ => w(false, Some("q"), i),
            })
            .collect::<Vec<_>>()
    };
    World::new(Cfg {
        mgrs: vec![mgr("p", writer), mgr("p", false)],
        sheets: (0..n).map(big_sheet).collect(),
        wants: vec![wants(true), wants(false)],
        slots: 1,
        drop_mgr: true,
        unreg: true,
        read: true,
        clients: vec![1],
        loads: 1,
    })
}

/// The orders in which `n` things are gone through.
fn order(n: usize, kind: usize) -> Vec<usize> {
    match kind {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
    }
}

/// Create, drop the handle, unregister: for the styles picked.
fn forget(mgr: usize, which: impl Iterator<Item = usize>, ops: &mut Vec<Op>) {
    for want in which {
        ops.extend([Op::Create { mgr, want }, Op::Unreg { h: 0 }, Op::Drop { h: 0 }]);
    }
}

/// Many styles in one manager, created in one order, partly unregistered, created again in another.
fn many_registered(t: bool) -> Space {
    let s = sizes(t);
    let n = s.len() as u64;
    let dec = move |i: u64| {
        let mut d = Digits(i);
        (d.take(3), d.take(3), d.take(3), s[d.take(n as usize)])
    };
    let d2 = dec.clone();
    scripts(
        "many styles: created, partly unregistered, created again",
        n * 27,
        move |i| {
            let (o1, o2, skip, n) = dec(i);
            let mut ops = vec![];
            for mgr in 0..2 {
                ops.extend(order(n, o1).into_iter().map(|want| Op::Touch { mgr, want }));
            }
            ops.extend(order(n, o2).into_iter().map(|want| Op::Touch { mgr: 0, want }));
            forget(0, order(n, o2).into_iter().filter(|j| j % (skip + 1) == 0), &mut ops);
            ops.push(Op::Create { mgr: 1, want: 0 });
            for mgr in 0..2 {
                ops.extend(order(n, o2).into_iter().map(|want| Op::Touch { mgr, want }));
            }
            ops.push(Op::DropMgr { mgr: 1 });
            (big_world(n, false), ops)
        },
        Real::start,
        move |i| format!("orders, every so many unregistered, styles: {:?}", d2(i)),
    )
}

/// Many styles collected: read in the middle or at the end, loaded, created on the client.
fn many_collected(t: bool, load: bool) -> Space {
    let s = sizes(t);
    let n = s.len() as u64;
    let dec = move |i: u64| {
        let mut d = Digits(i);
        (d.take(3), d.take(3), d.take(3), if load { d.take(3) } else { 0 }, s[d.take(n as usize)])
    };
    let d2 = dec.clone();
    scripts(
        if load { "many styles: collected, loaded, created again" } else { "many styles: collected" },
        n * if load { 81 } else { 27 },
        move |i| {
            let (o1, o2, at, how, n) = dec(i);
            let cut = [n, n.div_ceil(2), 1][at];
            let all = order(n, o1);
            let mut ops: Vec<Op> = all[..cut].iter().map(|&want| Op::Touch { mgr: 0, want }).collect();
            forget(0, order(n, o2).into_iter().filter(|j| all[..cut].contains(j) && j % 3 == 0), &mut ops);
            if at > 0 || load {
                ops.push(Op::Read { mgr: 0 });
            }
            ops.extend(all[cut..].iter().map(|&want| Op::Touch { mgr: 0, want }));
            if load {
                ops.push(Op::Load { client: 1, snap: 0, how: how as u8 });
                ops.extend(order(n, o2).into_iter().map(|want| Op::Touch { mgr: 1, want }));
                forget(1, order(n, o2).into_iter().filter(|j| j % 2 == 0), &mut ops);
                ops.extend(order(n, o1).into_iter().map(|want| Op::Touch { mgr: 1, want }));
            } else {
                ops.extend(order(n, o2).into_iter().map(|want| Op::Touch { mgr: 0, want }));
            }
            (big_world(n, true), ops)
        },
        Real::start,
        move |i| format!("orders, where read, how loaded, styles: {:?}", d2(i)),
    )
}
