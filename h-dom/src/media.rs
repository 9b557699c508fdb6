//! C22: the media-query hooks.
use std::rc::Rc;

use mck::driver::*;
use mck::hist::{histories, states, Impl, Model};
use serde_json::json;
use trees::N;

use crate::node::*;
use crate::tree::{serve, to_json};

const WIDTHS: [u32; 3] = [300, 600, 900];
/// `trees::QUERIES` on the widths.
fn matches(q: usize, w: usize) -> bool {
    match q {
        0 => w >= 1,
        1 => w <= 1,
        _ => w == 1,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Slot {
    Empty,
    Mq(usize),
    Pmq(usize, bool),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Set(usize, Slot),
    Resize(usize),
    /// The same tree again.
    Again,
    Destroy,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    One(Act),
    /// Both before anything asynchronous runs.
    Both(Act, Act),
    /// The second when the given number of asynchronous tasks of the first have run.
    Within(Act, usize, Act),
}

#[derive(Clone)]
pub struct Media {
    pub slots: Vec<Slot>,
    pub width: usize,
    pub alive: bool,
    pub menu: Rc<Vec<Slot>>,
    pub both: bool,
    pub within: usize,
}

impl Media {
    fn acts(&self) -> Vec<Act> {
        let mut v = vec![];
        if !self.alive {
            return v;
        }
        for (k, s) in self.slots.iter().enumerate() {
            for n in self.menu.iter() {
                if n != s {
                    v.push(Act::Set(k, *n));
                }
            }
        }
        for w in 0..WIDTHS.len() {
            if w != self.width {
                v.push(Act::Resize(w));
            }
        }
        v.push(Act::Again);
        v.push(Act::Destroy);
        v
    }
    fn act(&mut self, a: &Act) {
        match *a {
            Act::Set(k, s) => self.slots[k] = s,
            Act::Resize(w) => self.width = w,
            Act::Again => {}
            Act::Destroy => self.alive = false,
        }
    }
    pub fn forest(&self) -> Vec<N> {
        self.slots
            .iter()
            .map(|s| match *s {
                Slot::Empty => N::Nothing,
                Slot::Mq(q) => N::Mq(q),
                Slot::Pmq(q, f) => N::Pmq(q, f),
            })
            .collect()
    }
}

impl Model for Media {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v: Vec<Op> = self.acts().into_iter().map(Op::One).collect();
        if self.both || self.within > 0 {
            for a in self.acts() {
                let mut n = self.clone();
                n.act(&a);
                for b in n.acts() {
                    // Together: a change of the viewport and something else, or two changes.
                    if matches!(a, Act::Again | Act::Destroy) || b == Act::Again {
                        continue;
                    }
                    if self.both {
                        v.push(Op::Both(a, b));
                    }
                    for k in 1..=self.within {
                        v.push(Op::Within(a, k, b));
                    }
                }
            }
        }
        v
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::One(a) => self.act(a),
            Op::Both(a, b) | Op::Within(a, _, b) => {
                self.act(a);
                self.act(b);
            }
        }
    }
    fn canon(&self) -> String {
        format!("{:?} {} {}", self.slots, self.width, self.alive)
    }
}

pub struct Page;

fn act(m: &mut Media, a: &Act) -> Result<(), Fail> {
    m.act(a);
    match a {
        Act::Set(..) | Act::Again => {
            cmd(json!({"op": "update", "forest": to_json(&m.forest())}))?;
        }
        Act::Resize(w) => resize(WIDTHS[*w], false)?,
        Act::Destroy => {
            cmd(json!({"op": "destroy"}))?;
        }
    }
    Ok(())
}

impl Page {
    pub fn start(m: &Media, hydrate: bool) -> Page {
        if hydrate {
            let (s, _) = serve(&m.forest(), true, true);
            page_with(json!({"width": WIDTHS[m.width], "containers": [], "body": s.html}));
        } else {
            page_with(json!({"width": WIDTHS[m.width], "containers": []}));
        }
        cmd(json!({"op": if hydrate { "hydrate" } else { "render" }, "forest": to_json(&m.forest())})).expect("start");
        drain().expect("start");
        Page
    }
}

/// The values shown, in order.
fn shown(root: &str) -> Vec<String> {
    root.split("<b").skip(1).map(|p| p.split('>').nth(1).unwrap_or("").split('<').next().unwrap().to_string()).collect()
}

impl Impl<Media> for Page {
    fn step(&mut self, op: &Op, before: &Media, _after: &Media) -> Result<(), Fail> {
        let mut m = before.clone();
        match op {
            Op::One(a) => act(&mut m, a)?,
            Op::Both(a, b) => {
                act(&mut m, a)?;
                act(&mut m, b)?;
            }
            Op::Within(a, k, b) => {
                act(&mut m, a)?;
                tasks(*k)?;
                act(&mut m, b)?;
            }
        }
        drain()
    }
    fn observe(&mut self, m: &Media) -> Result<(), Fail> {
        let s = snap();
        let want: Vec<String> = if m.alive {
            m.slots
                .iter()
                .filter_map(|x| match *x {
                    Slot::Empty => None,
                    Slot::Mq(q) | Slot::Pmq(q, _) => Some(matches(q, m.width).to_string()),
                })
                .collect()
        } else {
            vec![]
        };
        if shown(&s.root) != want {
            return fail("the hooks show another match", format!("at width {} with {:?}: {}", WIDTHS[m.width], m.slots, s.root));
        }
        // What is not mounted any more hears nothing.
        if s.listeners as usize > want.len() {
            return fail("listeners outlive their query or component", format!("{} listeners, {:?}", s.listeners, m.slots));
        }
        if let Some(c) = s.console.first() {
            return fail("error in the console", c.clone());
        }
        Ok(())
    }
    fn finish(&mut self, m: &Media) -> Result<(), Fail> {
        // Through all widths once more.
        let mut m = m.clone();
        for w in [0, 1, 2, 1, 0] {
            m.width = w;
            resize(WIDTHS[w], true)?;
            self.observe(&m)?;
        }
        Ok(())
    }
}

pub fn c22(tier: Tier) -> Check {
    let thorough = tier == Tier::Thorough;
    let one: Vec<Slot> = vec![Slot::Empty, Slot::Mq(0), Slot::Mq(1), Slot::Mq(2), Slot::Pmq(0, true), Slot::Pmq(0, false), Slot::Pmq(1, true), Slot::Pmq(1, false)];
    let two: Vec<Slot> = vec![Slot::Empty, Slot::Mq(0), Slot::Mq(1), Slot::Pmq(0, true), Slot::Pmq(1, false)];
    let media = |n: usize, menu: &[Slot], both, within| Media { slots: vec![Slot::Empty; n], width: 1, alive: true, menu: Rc::new(menu.to_vec()), both, within };
    let fresh = |m: &Media| Page::start(m, false);
    let hydrated = |m: &Media| Page::start(m, true);
    let mut spaces = vec![];
    let d = if thorough { 4 } else { 3 };
    spaces.push(histories("one component", d, media(1, &one, false, 0), fresh));
    spaces.push(histories("one component, pairs at once", 2, media(1, &one, true, 0), fresh));
    spaces.push(histories("one component, pairs with some tasks between", if thorough { 2 } else { 1 }, media(1, &one, false, 6), fresh));
    spaces.push(states("one component: pairs everywhere", 9, 1000, media(1, &one, true, 6), fresh));
    spaces.push(histories("two components", if thorough { 3 } else { 2 }, media(2, &two, false, 0), fresh));
    spaces.push(states("two components: pairs everywhere", 9, if thorough { 1000 } else { 30 }, media(2, &two, true, if thorough { 4 } else { 0 }), fresh));
    // Starting from what a server rendered.
    for w in 0..WIDTHS.len() {
        for (k, s) in [Slot::Pmq(0, true), Slot::Pmq(0, false), Slot::Pmq(1, true), Slot::Pmq(2, false)].into_iter().enumerate() {
            let mut m = media(2, &two, false, 0);
            m.width = w;
            m.slots[0] = s;
            if k % 2 == 0 {
                m.slots[1] = Slot::Pmq(1, false);
            }
            spaces.push(histories(&format!("hydrated {s:?} at {}", WIDTHS[w]), if thorough { 3 } else { 2 }, m, hydrated));
        }
    }
    // Every value a component is rendered with on the way: the match, where no server has given a value;
    // else the server's value until the match is known.
    spaces.push(Space::new(
        "every value while starting",
        (3 * 4 * 7) as u64,
        move |i, rec| {
            let i = i as usize;
            let (w, how, menu) = (i % 3, i / 3 % 4, i / 12);
            let s = [Slot::Mq(0), Slot::Mq(1), Slot::Mq(2), Slot::Pmq(0, true), Slot::Pmq(0, false), Slot::Pmq(1, true), Slot::Pmq(1, false)][menu];
            // Rendered, mounted later into a rendered tree, hydrated, mounted later into a hydrated tree.
            let (hydrate, later) = (how >= 2, how % 2 == 1);
            if how == 2 && matches!(s, Slot::Mq(_)) {
                return;
            }
            rec.eval();
            rec.trace();
            let mut m = Media { slots: vec![if later { Slot::Empty } else { s }], width: w, alive: true, menu: Rc::new(vec![]), both: false, within: 0 };
            let (q, server) = match s {
                Slot::Mq(q) => (q, None),
                Slot::Pmq(q, f) => (q, (how == 2).then_some(f)),
                Slot::Empty => unreachable!(),
            };
            let key = format!("{s:?} at {w}, {}", ["rendered", "mounted later", "hydrated", "mounted later into a hydrated tree"][how]);
            let mut go = || -> Result<(), Fail> {
                let mut o = json!({"width": WIDTHS[w], "containers": []});
                if hydrate {
                    o["body"] = json!(serve(&m.forest(), true, true).0.html);
                }
                page_with(o);
                cmd(json!({"op": "values"}))?;
                cmd(json!({"op": if hydrate { "hydrate" } else { "render" }, "forest": to_json(&m.forest())}))?;
                if later {
                    drain()?;
                    m.slots[0] = s;
                    cmd(json!({"op": "update", "forest": to_json(&m.forest())}))?;
                }
                drain()?;
                let mut known = false;
                let values: Vec<bool> = serde_json::from_value(cmd(json!({"op": "values"}))?["ok"].clone()).expect("values");
                for v in &values {
                    if *v != matches(q, w) && (known || server != Some(*v)) {
                        return fail("a value that neither is the match nor comes from the server", format!("rendered with {values:?}"));
                    }
                    known |= *v == matches(q, w) && server != Some(*v);
                }
                if values.is_empty() || server.is_some_and(|f| values[0] != f) {
                    return fail("the value of the server is not used", format!("rendered with {values:?}"));
                }
                drain()?;
                Page.observe(&m)
            };
            match go() {
                Ok(()) => {
                    rec.distinct(&key);
                    rec.step("", &key, &format!("{s:?} {w}"));
                }
                Err(e) => rec.violation(e.0, format!("{key}: {}", e.1)),
            }
        },
        |i| format!("values {i}"),
    ));
    // A viewport that changes in the middle of hydration or of the first rendering.
    spaces.push(Space::new(
        "viewport change while starting",
        (3 * 3 * 2 * 7) as u64,
        move |i, rec| {
            let i = i as usize;
            let (w0, w1, hy, menu) = (i % 3, i / 3 % 3, i / 9 % 2 == 1, i / 18);
            let s = [Slot::Mq(0), Slot::Mq(1), Slot::Mq(2), Slot::Pmq(0, true), Slot::Pmq(0, false), Slot::Pmq(1, true), Slot::Pmq(1, false)][menu];
            if hy && matches!(s, Slot::Mq(_)) {
                return;
            }
            for k in 0..60 {
                rec.eval();
                rec.trace();
                let mut m = Media { slots: vec![s], width: w0, alive: true, menu: Rc::new(vec![]), both: false, within: 0 };
                let mut go = || -> Result<bool, Fail> {
                    let mut o = json!({"width": WIDTHS[w0], "containers": []});
                    if hy {
                        o["body"] = json!(serve(&m.forest(), true, true).0.html);
                    }
                    page_with(o);
                    cmd(json!({"op": if hy { "hydrate" } else { "render" }, "forest": to_json(&m.forest())}))?;
                    let left = tasks(k)?;
                    resize(WIDTHS[w1], false)?;
                    m.width = w1;
                    drain()?;
                    Page.observe(&m)?;
                    Page.finish(&m)?;
                    Ok(left == 0)
                };
                let key = format!("{s:?} {w0} to {w1} after {k} tasks, hydrated {hy}");
                match go() {
                    Ok(done) => {
                        rec.distinct(&key);
                        rec.step(&format!("{s:?} {w0}"), &key, &format!("{s:?} {w1}"));
                        if done {
                            break;
                        }
                    }
                    Err(e) => return rec.violation(e.0, format!("{key}: {}", e.1)),
                }
            }
        },
        |i| format!("start {i}"),
    ));
    Check {
        property: "C22",
        level: "model_checking",
        rule: "distinct histories of renders, query changes, viewport changes, unmounts, each compared with the viewport's actual match after every step".into(),
        bounds: format!("three widths, three queries, both hooks; all histories of {d} steps with one component, {} with two; pairs of steps at once or separated by up to 6 asynchronous tasks in every reachable state of one component; 12 hydrated starts; a viewport change after every number of tasks of a start", if thorough { 3 } else { 2 }),
        assumptions: crate::world::ASSUME.iter().map(|s| s.to_string()).collect(),
        spaces,
    }
}
