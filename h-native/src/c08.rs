//! C08: sheets are plain values.
use crate::common::*;
use crate::sheets::{lean_vocab, rich_vocab};
use mck::driver::*;
use mck::enumr::sheets;
use mck::model as m;
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use stylist::ast::{Block, Bow, Rule, RuleBlockContent, ScopeContent, Selector, Sheet, StringFragment, StyleAttribute};

/// How a value is held: borrowed from statics (as macros do) or owned (as the parser does), or mixed.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Own {
    Owned,
    Borrowed,
    Mixed,
}

struct B {
    own: Own,
    n: usize,
}
impl B {
    fn borrow(&mut self) -> bool {
        self.n += 1;
        match self.own {
            Own::Owned => false,
            Own::Borrowed => true,
            Own::Mixed => self.n % 2 == 0,
        }
    }
    fn s(&mut self, s: &str) -> Cow<'static, str> {
        if self.borrow() {
            Cow::Borrowed(Box::leak(s.to_string().into_boxed_str()))
        } else {
            Cow::Owned(s.to_string())
        }
    }
    fn l<T: Clone>(&mut self, v: Vec<T>) -> Cow<'static, [T]> {
        if self.borrow() {
            Cow::Borrowed(Box::leak(v.into_boxed_slice()))
        } else {
            Cow::Owned(v)
        }
    }
    fn bow<T: Clone>(&mut self, v: T) -> Bow<'static, T> {
        if self.borrow() {
            Bow::Borrowed(Box::leak(Box::new(v)))
        } else {
            Bow::Boxed(Box::new(v))
        }
    }
    fn frags(&mut self, s: &str) -> Cow<'static, [StringFragment]> {
        let inner = self.s(s);
        self.l(vec![StringFragment { inner }])
    }
    fn decl(&mut self, d: &m::Decl) -> RuleBlockContent {
        let key = self.s(&d.key);
        let value = self.frags(&d.val);
        RuleBlockContent::StyleAttr(StyleAttribute { key, value })
    }
    fn bitems(&mut self, v: &[m::BItem]) -> Vec<RuleBlockContent> {
        v.iter()
            .map(|b| match b {
                m::BItem::Decl(d) => self.decl(d),
                m::BItem::At(c, v) => {
                    let condition = self.frags(c);
                    let content = self.bitems(v);
                    let content = self.l(content);
                    RuleBlockContent::Rule(self.bow(Rule { condition, content }))
                }
            })
            .collect()
    }
    fn item(&mut self, i: &m::Item) -> ScopeContent {
        match i {
            m::Item::Decl(d) => {
                let c = vec![self.decl(d)];
                ScopeContent::Block(Block {
                    condition: Cow::Borrowed(&[]),
                    content: self.l(c),
                })
            }
            m::Item::Block(s, b) => {
                let sels: Vec<Selector> = s
                    .iter()
                    .map(|s| Selector {
                        fragments: self.frags(s),
                    })
                    .collect();
                let condition = self.l(sels);
                let content = self.bitems(b);
                ScopeContent::Block(Block {
                    condition,
                    content: self.l(content),
                })
            }
            m::Item::At(c, v) => {
                let condition = self.frags(c);
                let content = v
                    .iter()
                    .map(|i| match self.item(i) {
                        ScopeContent::Block(b) => RuleBlockContent::Block(self.bow(b)),
                        ScopeContent::Rule(r) => RuleBlockContent::Rule(self.bow(r)),
                    })
                    .collect();
                ScopeContent::Rule(Rule {
                    condition,
                    content: self.l(content),
                })
            }
            m::Item::Keyframes(n, fs) => {
                let condition = self.frags(&format!("@keyframes {n}"));
                let content = fs
                    .iter()
                    .map(|f| {
                        let condition = self.frags(&f.cond.join(", "));
                        let d: Vec<_> = f.decls.iter().map(|d| self.decl(d)).collect();
                        let content = self.l(d);
                        RuleBlockContent::Rule(self.bow(Rule { condition, content }))
                    })
                    .collect();
                ScopeContent::Rule(Rule {
                    condition,
                    content: self.l(content),
                })
            }
        }
    }
}

fn build(s: &m::Sheet, own: Own) -> Sheet {
    let mut b = B { own, n: 0 };
    let v: Vec<ScopeContent> = s.iter().map(|i| b.item(i)).collect();
    match own {
        Own::Borrowed => Sheet::from(&*Box::leak(v.into_boxed_slice())),
        _ => Sheet::from(v),
    }
}

fn h(s: &Sheet) -> u64 {
    let mut d = DefaultHasher::new();
    s.hash(&mut d);
    d.finish()
}

const OWNS: [Own; 3] = [Own::Owned, Own::Borrowed, Own::Mixed];

/// Variants of a sheet that differ in exactly one construct.
fn mutants(s: &m::Sheet) -> Vec<m::Sheet> {
    fn decls(d: &m::Decl) -> Vec<m::Decl> {
        vec![
            m::decl(&format!("{}x", d.key), &d.val),
            m::decl(&d.key, &format!("{}x", d.val)),
            m::decl(&d.val, &d.key),
        ]
    }
    fn bitems(v: &[m::BItem]) -> Vec<Vec<m::BItem>> {
        let mut out = vec![];
        for i in 0..v.len() {
            let with = |x: m::BItem| {
                let mut w = v.to_vec();
                w[i] = x;
                w
            };
            let mut w = v.to_vec();
            w.remove(i);
            out.push(w);
            let mut w = v.to_vec();
            w.insert(i, v[i].clone());
            out.push(w);
            if i + 1 < v.len() && v[i] != v[i + 1] {
                let mut w = v.to_vec();
                w.swap(i, i + 1);
                out.push(w);
            }
            match &v[i] {
                m::BItem::Decl(d) => out.extend(decls(d).into_iter().map(|d| with(m::BItem::Decl(d)))),
                m::BItem::At(c, b) => {
                    out.push(with(m::BItem::At(format!("{c}x"), b.clone())));
                    out.extend(bitems(b).into_iter().map(|b| with(m::BItem::At(c.clone(), b))));
                }
            }
        }
        out
    }
    fn items(v: &[m::Item]) -> Vec<Vec<m::Item>> {
        let mut out = vec![];
        for i in 0..v.len() {
            let with = |x: m::Item| {
                let mut w = v.to_vec();
                w[i] = x;
                w
            };
            let mut w = v.to_vec();
            w.remove(i);
            out.push(w);
            let mut w = v.to_vec();
            w.insert(i, v[i].clone());
            out.push(w);
            if i + 1 < v.len() && v[i] != v[i + 1] {
                let mut w = v.to_vec();
                w.swap(i, i + 1);
                out.push(w);
            }
            match &v[i] {
                m::Item::Decl(d) => {
                    out.extend(decls(d).into_iter().map(|d| with(m::Item::Decl(d))));
                    out.push(with(m::Item::Block(vec!["&".into()], vec![m::BItem::Decl(d.clone())])));
                }
                m::Item::Block(s, b) => {
                    let mut s2 = s.clone();
                    s2.push("z".into());
                    out.push(with(m::Item::Block(s2, b.clone())));
                    let mut s2 = s.clone();
                    s2[0].push('x');
                    out.push(with(m::Item::Block(s2, b.clone())));
                    if s.len() > 1 {
                        let mut s2 = s.clone();
                        s2.reverse();
                        out.push(with(m::Item::Block(s2, b.clone())));
                    }
                    out.extend(bitems(b).into_iter().map(|b| with(m::Item::Block(s.clone(), b))));
                }
                m::Item::At(c, b) => {
                    out.push(with(m::Item::At(format!("{c}x"), b.clone())));
                    out.extend(items(b).into_iter().map(|b| with(m::Item::At(c.clone(), b))));
                }
                m::Item::Keyframes(n, f) => {
                    out.push(with(m::Item::Keyframes(format!("{n}x"), f.clone())));
                    for k in 0..f.len() {
                        let mut g = f.clone();
                        g[k].cond.push("to".into());
                        out.push(with(m::Item::Keyframes(n.clone(), g)));
                        let mut g = f.clone();
                        g.remove(k);
                        out.push(with(m::Item::Keyframes(n.clone(), g)));
                    }
                }
            }
        }
        out
    }
    items(s)
}

fn pair(a: &m::Sheet, b: &m::Sheet, rec: &mut Rec) {
    for oa in OWNS {
        for ob in OWNS {
            rec.eval();
            let (x, y) = (build(a, oa), build(b, ob));
            let want = a == b;
            if (x == y) != want || (y == x) != want {
                rec.violation("eq", format!("{:?} ({oa:?}) and {:?} ({ob:?}) should{} be equal", m::text(a), m::text(b), if want { "" } else { " not" }));
            }
            if want && h(&x) != h(&y) {
                rec.violation("hash", format!("equal sheets hash differently: {:?} {oa:?} {ob:?}", m::text(a)));
            }
            if want {
                rec.count("equal pairs");
            }
        }
    }
    let (ta, tb) = (m::text(a), m::text(b));
    if let (Ok(x), Ok(y)) = (ta.parse::<Sheet>(), tb.parse::<Sheet>()) {
        if (x == y) != (a == b) {
            rec.violation("parsed eq", format!("{ta:?} and {tb:?} should{} parse to equal sheets", if a == b { "" } else { " not" }));
        }
    }
    rec.distinct(&format!("{ta}\x01{tb}"));
}

fn round(s: &m::Sheet, rec: &mut Rec) {
    let text = m::text(s);
    rec.sample(|| text.clone());
    rec.distinct(&text);
    let mut all: Vec<(String, Sheet)> = OWNS.iter().map(|o| (format!("{o:?}"), build(s, *o))).collect();
    if let Ok(p) = text.parse::<Sheet>() {
        all.push(("parsed".into(), p));
    }
    for (o, x) in &all {
        rec.eval();
        let css = render(x, Some("C"));
        let mut same = |y: &Sheet, how: &str| {
            if y != x || x != y {
                rec.violation(format!("{how} eq"), format!("{text:?} ({o}) differs after {how}"));
            } else if h(y) != h(x) {
                rec.violation(format!("{how} hash"), format!("{text:?} ({o}) hashes differently after {how}"));
            } else if render(y, Some("C")) != css {
                rec.violation(format!("{how} render"), format!("{text:?} ({o}) renders differently after {how}"));
            }
        };
        same(&x.clone(), "clone");
        match serde_json::to_string(x).map_err(|e| e.to_string()).and_then(|j| serde_json::from_str::<Sheet>(&j).map_err(|e| e.to_string())) {
            Ok(y) => same(&y, "json"),
            Err(e) => rec.violation("json", format!("{text:?} ({o}) does not survive JSON: {e}")),
        }
        match bincode::serialize(x).map_err(|e| e.to_string()).and_then(|j| bincode::deserialize::<Sheet>(&j).map_err(|e| e.to_string())) {
            Ok(y) => {
                if &y != x || h(&y) != h(x) || render(&y, None) != render(x, None) {
                    rec.violation("bincode eq", format!("{text:?} ({o}) differs after bincode"));
                }
            }
            Err(e) => rec.violation("bincode", format!("{text:?} ({o}) does not survive bincode: {e}")),
        }
    }
}

pub fn check(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let all = Rc::new(sheets(if t { 3 } else { 2 }, &rich_vocab()));
    let lean = Rc::new(sheets(if t { 6 } else { 5 }, &lean_vocab()));
    let rich = Rc::new(sheets(if t { 4 } else { 3 }, &rich_vocab()));
    let n = all.len() as u64;
    let (a1, a2) = (all.clone(), all.clone());
    let (l1, l2) = (lean.clone(), lean.clone());
    let (r1, r2) = (rich.clone(), rich.clone());
    let big = crate::sheets::big_shapes(t, 24).0;
    let (b1, b2) = (big.clone(), big.clone());
    let (l3, l4) = (lean.clone(), lean.clone());
    Check {
        property: "C08",
        level: "exploration",
        rule: "all pairs of small sheets, every larger sheet against every variant of it that differs in one construct, each in owned, borrowed and mixed form; every sheet cloned and serialized in two formats; distinct by source texts".into(),
        bounds: format!("{n} sheets pairwise; rich trees <= {} and lean trees <= {} nodes", if t {4} else {3}, if t {6} else {5}),
        assumptions: vec!["sheets are built through the public constructors of stylist::ast".into()],
        spaces: vec![
            Space::new("pairs", n * n, move |i, rec| pair(&a1[(i / n) as usize], &a1[(i % n) as usize], rec), move |i| format!("{:?} / {:?}", m::text(&a2[(i / n) as usize]), m::text(&a2[(i % n) as usize]))).chunked(20_000),
            Space::new("single differences", lean.len() as u64, move |i, rec| {
                let s = &l1[i as usize];
                for x in mutants(s) { pair(s, &x, rec) }
                pair(s, s, rec)
            }, move |i| m::text(&l2[i as usize])).chunked(2_000),
            Space::new("single differences, rich", rich.len() as u64, move |i, rec| {
                let s = &r1[i as usize];
                round(s, rec);
                for x in mutants(s) { pair(s, &x, rec) }
            }, move |i| m::text(&r2[i as usize])).chunked(2_000),
            Space::new("one big dimension", big.len() as u64, move |i, rec| {
                let s = &b1[i as usize];
                round(s, rec);
                // Big sheets: the differences at the end only.
                let all = mutants(s);
                let from = all.len().saturating_sub(if t { 400 } else { 60 });
                for x in &all[from..] { pair(s, x, rec) }
            }, move |i| m::text(&b2[i as usize])).chunked(20),
            Space::new("round trips", lean.len() as u64, move |i, rec| round(&l3[i as usize], rec), move |i| m::text(&l4[i as usize])).chunked(5_000),
        ],
    }
}
