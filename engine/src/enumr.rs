//! Bounded enumeration of model sheets: every tree with at most the given number of nodes.
use crate::model::*;

/// The vocabulary of one enumeration. Keys are made unique by position afterwards.
#[derive(Clone, Debug)]
pub struct Vocab {
    /// Selector lists a block can have.
    pub sels: Vec<Vec<String>>,
    /// At-rule conditions ("@media x").
    pub conds: Vec<String>,
    pub keyframes: bool,
    pub max_depth: usize,
}

fn seqs<T: Clone>(n: usize, one: &dyn Fn(usize) -> Vec<T>) -> Vec<Vec<T>> {
    // all sequences of items whose sizes sum to exactly n
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..=n {
        let heads = one(k);
        if heads.is_empty() {
            continue;
        }
        let tails = seqs(n - k, one);
        for h in &heads {
            for t in &tails {
                let mut v = vec![h.clone()];
                v.extend(t.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

fn bitem(n: usize, v: &Vocab, depth: usize) -> Vec<BItem> {
    let mut out = vec![];
    if n == 1 {
        out.push(BItem::Decl(decl("k", "v")));
    }
    if n >= 1 && depth < v.max_depth {
        for body in seqs(n - 1, &|k| bitem(k, v, depth + 1)) {
            for c in &v.conds {
                out.push(BItem::At(c.clone(), body.clone()));
            }
        }
    }
    out
}

fn frame(n: usize) -> Vec<Frame> {
    if n == 0 {
        return vec![];
    }
    let conds: Vec<Vec<String>> = vec![vec!["from".into()], vec!["0%".into(), "50%".into()]];
    conds
        .into_iter()
        .map(|cond| Frame {
            cond,
            decls: (0..n - 1).map(|_| decl("k", "v")).collect(),
        })
        .collect()
}

fn item(n: usize, v: &Vocab, depth: usize) -> Vec<Item> {
    let mut out = vec![];
    if n == 1 {
        out.push(Item::Decl(decl("k", "v")));
    }
    if n >= 1 {
        for body in seqs(n - 1, &|k| bitem(k, v, depth + 1)) {
            for s in &v.sels {
                out.push(Item::Block(s.clone(), body.clone()));
            }
        }
        if depth < v.max_depth {
            for body in seqs(n - 1, &|k| item(k, v, depth + 1)) {
                for c in &v.conds {
                    out.push(Item::At(c.clone(), body.clone()));
                }
            }
        }
        if v.keyframes {
            for fs in seqs(n - 1, &frame) {
                out.push(Item::Keyframes("kf".into(), fs));
            }
        }
    }
    out
}

fn num(d: &mut Decl, n: &mut usize) {
    // Distinct declarations, so that any loss, duplication or swap is visible.
    d.key = format!("k{n}");
    d.val = format!("v{n}");
    *n += 1;
}
fn number_b(v: &mut [BItem], n: &mut usize) {
    for b in v {
        match b {
            BItem::Decl(d) => num(d, n),
            BItem::At(_, v) => number_b(v, n),
        }
    }
}
fn number(v: &mut [Item], n: &mut usize) {
    for i in v {
        match i {
            Item::Decl(d) => num(d, n),
            Item::Block(_, b) => number_b(b, n),
            Item::At(_, v) => number(v, n),
            Item::Keyframes(_, fs) => {
                for f in fs {
                    for d in &mut f.decls {
                        num(d, n);
                    }
                }
            }
        }
    }
}

/// Every sheet with exactly `n` nodes.
pub fn sheets_exact(n: usize, v: &Vocab) -> Vec<Sheet> {
    let mut out = seqs(n, &|k| item(k, v, 0));
    for s in &mut out {
        number(s, &mut 0);
    }
    out
}
pub fn sheets(max: usize, v: &Vocab) -> Vec<Sheet> {
    (0..=max).flat_map(|n| sheets_exact(n, v)).collect()
}
