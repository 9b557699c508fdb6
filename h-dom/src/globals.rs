//! C23: global style components through mounts, updates and unmounts.
use std::collections::BTreeMap;
use std::rc::Rc;

use mck::driver::*;
use mck::hist::{histories, scripts, states, Impl, Model};
use serde_json::json;
use trees::N;

use crate::node::*;
use crate::tree::{client, entries, markup, serve, styles, to_json, prefix, same_prefix, Entry, GLOBAL};
use crate::world::sem;

/// What a slot renders: the component, in a styled component or not, and the provider around it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct G {
    css: usize,
    styled: bool,
    mgr: Option<usize>,
}
pub type Slot = Option<G>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Set(usize, Slot),
    /// Two slots at once, or one slot twice before anything asynchronous runs.
    Set2((usize, Slot), (usize, Slot)),
    Again,
    Destroy,
}

#[derive(Clone)]
pub struct World {
    slots: Vec<Slot>,
    alive: bool,
    menu: Rc<Vec<Slot>>,
    both: bool,
    hydrate: bool,
    /// Both managers have the same prefix.
    same: bool,
}

impl World {
    fn forest(&self) -> Vec<N> {
        self.slots
            .iter()
            .map(|s| match s {
                None => N::Nothing,
                Some(g) => {
                    let n = if g.styled { N::CssGlob(g.css) } else { N::Glob(g.css) };
                    match g.mgr {
                        None => n,
                        Some(m) => N::Mgr(m, vec![n]),
                    }
                }
            })
            .collect()
    }
    fn sets(&self) -> Vec<(usize, Slot)> {
        let mut v = vec![];
        for (k, s) in self.slots.iter().enumerate() {
            for n in self.menu.iter() {
                if n != s {
                    v.push((k, *n));
                }
            }
        }
        v
    }
}

impl Model for World {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        if !self.alive {
            return v;
        }
        for (k, s) in self.sets() {
            v.push(Op::Set(k, s));
            if self.both {
                let mut n = self.clone();
                n.slots[k] = s;
                for b in n.sets() {
                    v.push(Op::Set2((k, s), b));
                }
            }
        }
        v.push(Op::Again);
        v.push(Op::Destroy);
        v
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Set(k, s) => self.slots[*k] = *s,
            Op::Set2(a, b) => {
                self.slots[a.0] = a.1;
                self.slots[b.0] = b.1;
            }
            Op::Again => {}
            Op::Destroy => {
                self.alive = false;
                self.slots.iter_mut().for_each(|s| *s = None);
            }
        }
    }
    fn canon(&self) -> String {
        format!("{:?} {} {} {}", self.slots, self.alive, self.hydrate, self.same)
    }
}

pub struct Page {
    /// Identifiers of the server's styles.
    server: [Vec<Entry>; 2],
}

impl Page {
    fn start(w: &World) -> Page {
        same_prefix(w.same);
        let f = w.forest();
        let mut server = [vec![], vec![]];
        if w.hydrate {
            let (s, _) = serve(&f, true, true);
            server = [entries(&s.data[0]), entries(&s.data[1])];
            client(json!({"head": markup(&s), "body": s.html})).expect("client");
            cmd_settle(json!({"op": "hydrate", "forest": to_json(&f)})).expect("hydrate");
        } else {
            client(json!({})).expect("client");
            cmd_settle(json!({"op": "render", "forest": to_json(&f)})).expect("render");
        }
        Page { server }
    }
}

impl Impl<World> for Page {
    fn step(&mut self, op: &Op, before: &World, after: &World) -> Result<(), Fail> {
        match op {
            Op::Destroy => {
                cmd(json!({"op": "destroy"}))?;
            }
            Op::Set2(a, _) => {
                let mut m = before.clone();
                m.slots[a.0] = a.1;
                cmd(json!({"op": "update", "forest": to_json(&m.forest())}))?;
                cmd(json!({"op": "update", "forest": to_json(&after.forest())}))?;
            }
            _ => {
                cmd(json!({"op": "update", "forest": to_json(&after.forest())}))?;
            }
        }
        drain()
    }
    fn observe(&mut self, m: &World) -> Result<(), Fail> {
        let s = snap();
        let head = styles(&s.head);
        for mgr in [None, Some(0), Some(1)] {
            let have: Vec<Entry> = match mgr {
                None => head.iter().filter(|e| !self.server.iter().flatten().any(|x| x.id == e.id)).cloned().collect(),
                Some(k) => head.iter().filter(|e| self.server[k].iter().any(|x| x.id == e.id)).cloned().chain(styles(&s.containers[k])).collect(),
            };
            let mut want: BTreeMap<String, usize> = BTreeMap::new();
            for g in m.slots.iter().flatten().filter(|g| g.mgr == mgr) {
                *want.entry(sem(GLOBAL[g.css])).or_default() += 1;
            }
            let mut got: BTreeMap<String, usize> = BTreeMap::new();
            for e in &have {
                let p = mgr.map(|m| prefix(m)).unwrap_or("stylist");
                if !e.id.starts_with(&format!("{p}-global-")) {
                    return fail("identifier of another kind", e.id.clone());
                }
                *got.entry(sem(&e.css)).or_default() += 1;
            }
            for (c, n) in &want {
                let k = got.get(c).copied().unwrap_or(0);
                if k == 0 {
                    return fail("the global style of a mounted component is missing", format!("{c} of {mgr:?} in {:?}: {have:?}", m.slots));
                }
                if k > *n {
                    return fail("more registrations than components", format!("{c} of {mgr:?} in {:?}: {have:?}", m.slots));
                }
            }
            if let Some(c) = got.keys().find(|c| !want.contains_key(*c)) {
                return fail("a global style without its component", format!("{c} of {mgr:?} in {:?}: {have:?}", m.slots));
            }
        }
        if let Some(c) = s.console.first() {
            return fail("error in the console", c.clone());
        }
        Ok(())
    }
    fn finish(&mut self, m: &World) -> Result<(), Fail> {
        if m.alive {
            let mut n = m.clone();
            n.apply(&Op::Destroy);
            self.step(&Op::Destroy, m, &n)?;
            self.observe(&n)?;
        }
        Ok(())
    }
}

fn g(css: usize, mgr: Option<usize>) -> Slot {
    Some(G { css, styled: false, mgr })
}
fn gs(css: usize, mgr: Option<usize>) -> Slot {
    Some(G { css, styled: true, mgr })
}

pub fn c23(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let full: Vec<Slot> = vec![None, g(0, None), g(1, None), g(2, None), gs(1, None), g(0, Some(0)), g(1, Some(0)), g(0, Some(1)), g(1, Some(1)), gs(0, Some(0)), gs(1, Some(1))];
    let few: Vec<Slot> = vec![None, g(0, None), g(0, Some(0)), g(1, Some(0)), g(0, Some(1))];
    let world = |n: usize, menu: &[Slot], both, hydrate, same| World { slots: vec![None; n], alive: true, menu: Rc::new(menu.to_vec()), both, hydrate, same };
    let mut spaces = vec![];
    spaces.push(histories("one component", if t { 4 } else { 3 }, world(1, &full, false, false, false), Page::start));
    spaces.push(histories("one component, twice at once", 2, world(1, &full, true, false, false), Page::start));
    spaces.push(histories("two components", if t { 3 } else { 2 }, world(2, &full, false, false, false), Page::start));
    spaces.push(histories("two components, fewer styles", if t { 5 } else { 3 }, world(2, &few, false, false, false), Page::start));
    spaces.push(states("two components, pairs at once", 9, if t { 100000 } else { 200 }, world(2, &few, true, false, false), Page::start));
    spaces.push(histories("three components", if t { 4 } else { 2 }, world(3, &few[..3], false, false, false), Page::start));
    spaces.push(histories("two components, equal prefixes", if t { 4 } else { 2 }, world(2, &few, false, false, true), Page::start));
    let same: Vec<Slot> = vec![None, g(0, Some(0))];
    spaces.push(histories("the same style in three components", if t { 7 } else { 4 }, world(3, &same, false, false, false), Page::start));
    // Many components: mounted one by one, changed, partly unmounted, mounted again.
    let sizes: &'static [usize] = if t { &[4, 5, 8, 9, 16, 17, 33, 65] } else { &[5, 9, 17] };
    let (fm, base) = (full.clone(), world(0, &full, false, false, false));
    let many = move |i: u64| {
        let mut d = Digits(i);
        let (hydrate, same, step, skip, n) = (d.take(2) == 1, d.take(2) == 1, 1 + d.take(4), 2 + d.take(3), sizes[d.take(sizes.len())]);
        let alt = |k: usize| fm[1 + k * step % (fm.len() - 1)];
        let w = World { slots: (0..n).map(|k| if hydrate { alt(k) } else { None }).collect(), hydrate, same, ..base.clone() };
        let mut ops: Vec<Op> = (0..n).map(|k| Op::Set(k, alt(k))).collect();
        ops.extend((0..n).rev().filter(|k| k % skip == 0).map(|k| Op::Set(k, None)));
        ops.extend((0..n).map(|k| Op::Set(k, alt(k + skip))));
        ops.push(Op::Again);
        ops.extend((1..n).step_by(2).map(|k| Op::Set2((k, None), (k - 1, alt(k)))));
        ops.extend((0..n).map(|k| Op::Set(k, alt(0))));
        (w, ops)
    };
    let m2 = many.clone();
    spaces.push(scripts("many components", (48 * sizes.len()) as u64, many, Page::start, move |i| format!("{:?}", m2(i).0.canon())));
    for (k, a) in few.iter().enumerate() {
        for b in few.iter().skip(k) {
            if a.is_none() && b.is_none() {
                continue;
            }
            for same in [false, true] {
                let mut w = world(2, &few, false, true, same);
                w.slots = vec![*a, *b];
                spaces.push(histories(&format!("hydrated {a:?} {b:?}, equal prefixes {same}"), if t { 3 } else { 2 }, w, Page::start));
            }
        }
    }
    Check {
        property: "C23",
        level: "model_checking",
        rule: "distinct histories of mounts, updates of CSS and manager, re-renders and unmounts; the document's global styles were compared with the mounted components after every step".into(),
        bounds: "1-3 components; 11 (1, 2 components) or 5 alternatives per component over 3 stylesheets, 2 providers and none, plain and styled components; histories of 2-4 steps (thorough 3-7), pairs of updates at once; 28 hydrated starts".into(),
        assumptions: crate::world::ASSUME.iter().map(|s| s.to_string()).collect(),
        spaces,
    }
}
