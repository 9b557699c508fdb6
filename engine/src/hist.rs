//! Exhaustive operation histories against a reference model.
//!
//! * `histories`: every history of the model's operations up to a depth, each executed from scratch
//!   on the real code and compared with the model after every step.
//! * `states`: explicit-state search of the model (breadth first, canonical states); for every
//!   reachable state and every operation enabled in it, the shortest history leading there is
//!   replayed on the real code, the operation is executed and the result compared.
use crate::driver::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::rc::Rc;

pub trait Model: Clone + 'static {
    type Op: Clone + Debug + 'static;
    /// Operations enabled in this state, in a fixed order.
    fn ops(&self) -> Vec<Self::Op>;
    fn apply(&mut self, op: &Self::Op);
    /// Canonical form; equal forms have the same futures.
    fn canon(&self) -> String;
}

pub type Fail = (String, String);

pub trait Impl<M: Model> {
    /// Executes the operation; may use the model before and after it as the oracle of the answer.
    fn step(&mut self, op: &M::Op, before: &M, after: &M) -> Result<(), Fail>;
    /// Non-destructive observation of everything visible.
    fn observe(&mut self, m: &M) -> Result<(), Fail>;
    /// Destructive probes at the end of a history.
    fn finish(&mut self, m: &M) -> Result<(), Fail>;
}

fn run<M: Model, I: Impl<M>>(
    init: &M,
    start: &dyn Fn(&M) -> I,
    ops: &[M::Op],
    from: usize,
    rec: &mut Rec,
) {
    rec.eval();
    rec.trace();
    let ops_s = || format!("{ops:?}");
    let mut m = init.clone();
    let mut fail = |e: Fail, k: usize| rec.violation(e.0.clone(), format!("history {}\nafter step {k}: {}: {}", ops_s(), e.0, e.1));
    let mut i = start(init);
    let mut steps: Vec<(String, String, String)> = vec![];
    let mut c = m.canon();
    for (k, op) in ops.iter().enumerate() {
        let before = m.clone();
        m.apply(op);
        let c2 = m.canon();
        if k >= from {
            steps.push((c.clone(), format!("{op:?}"), c2.clone()));
        }
        c = c2;
        match catch(|| {
            i.step(op, &before, &m)?;
            if k >= from {
                i.observe(&m)?;
            }
            Ok(())
        }) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return fail(e, k),
            Err(p) => return fail((format!("panic: {p}"), "unexpected panic".into()), k),
        }
    }
    match catch(|| i.finish(&m)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail(e, ops.len()),
        Err(p) => return fail((format!("panic: {p}"), "unexpected panic at the end".into()), ops.len()),
    }
    if let Err(p) = catch(move || drop(i)) {
        fail((format!("panic: {p}"), "unexpected panic while dropping everything".into()), ops.len());
        return;
    }
    for (a, o, b) in steps {
        rec.step(&a, &o, &b);
    }
    rec.distinct(&ops_s());
    rec.sample(ops_s);
}

fn extend<M: Model, I: Impl<M>>(
    init: &M,
    start: &dyn Fn(&M) -> I,
    m: &M,
    ops: &mut Vec<M::Op>,
    depth: usize,
    from: &mut usize,
    rec: &mut Rec,
) {
    let en = if ops.len() < depth { m.ops() } else { vec![] };
    if en.is_empty() {
        run(init, start, ops, *from, rec);
        *from = ops.len();
        return;
    }
    for op in en {
        if rec.has_violation() {
            return;
        }
        let mut n = m.clone();
        n.apply(&op);
        let l = ops.len();
        *from = (*from).min(l);
        ops.push(op);
        extend(init, start, &n, ops, depth, from, rec);
        ops.truncate(l);
        *from = (*from).min(l);
    }
}

/// Every history of up to `depth` operations (maximal ones are executed, their prefixes checked on
/// the way).
pub fn histories<M: Model, I: Impl<M> + 'static>(name: &str, depth: usize, init: M, start: impl Fn(&M) -> I + 'static) -> Space {
    // Cut into enough cases to keep every worker busy.
    let mut prefixes: Vec<(Vec<M::Op>, M)> = vec![(vec![], init.clone())];
    for _ in 1..depth.max(2) {
        if prefixes.len() >= 500 {
            break;
        }
        let mut next = vec![];
        for (ops, m) in prefixes {
            let en = m.ops();
            if en.is_empty() {
                next.push((ops.clone(), m.clone()));
            }
            for op in en {
                let mut n = m.clone();
                n.apply(&op);
                let mut o = ops.clone();
                o.push(op);
                next.push((o, n));
            }
        }
        prefixes = next;
    }
    let prefixes = Rc::new(prefixes);
    let p2 = prefixes.clone();
    let chunk = (prefixes.len() as u64).div_ceil(40);
    Space::new(
        &format!("{name}: histories of {depth}"),
        prefixes.len() as u64,
        move |i, rec| {
            let (ops, m) = prefixes[i as usize].clone();
            let mut ops = ops;
            let mut from = 0;
            extend(&init, &start, &m, &mut ops, depth, &mut from, rec);
        },
        move |i| format!("histories starting with {:?}", p2[i as usize].0),
    )
    .chunked(chunk)
}

/// Every reachable state (breadth first up to `depth` operations or `max` states) and every
/// operation enabled in it.
pub fn states<M: Model, I: Impl<M> + 'static>(name: &str, depth: usize, max: usize, init: M, start: impl Fn(&M) -> I + 'static) -> Space {
    let mut seen: HashMap<String, ()> = HashMap::new();
    let mut all: Vec<(Vec<M::Op>, M)> = vec![];
    let mut q: VecDeque<(Vec<M::Op>, M)> = VecDeque::new();
    seen.insert(init.canon(), ());
    q.push_back((vec![], init.clone()));
    let mut complete = true;
    while let Some((ops, m)) = q.pop_front() {
        all.push((ops.clone(), m.clone()));
        for op in m.ops() {
            let mut n = m.clone();
            n.apply(&op);
            let c = n.canon();
            if seen.contains_key(&c) {
                continue;
            }
            if ops.len() + 1 > depth || seen.len() >= max {
                complete = false;
                continue;
            }
            seen.insert(c, ());
            let mut o = ops.clone();
            o.push(op);
            q.push_back((o, n));
        }
    }
    let all = Rc::new(all);
    let a2 = all.clone();
    let note = if complete { "all reachable" } else { "bounded" };
    Space::new(
        &format!("{name}: states, {note}, depth {}", all.last().map(|m| m.0.len()).unwrap_or(0)),
        all.len() as u64,
        move |i, rec| {
            let (ops, m) = &all[i as usize];
            if m.ops().is_empty() || ops.is_empty() {
                run(&init, &start, ops, 0, rec);
            }
            for op in m.ops() {
                let mut o = ops.clone();
                o.push(op);
                run(&init, &start, &o, ops.len().saturating_sub(1), rec);
                if rec.has_violation() {
                    return;
                }
            }
        },
        move |i| format!("state after {:?}", a2[i as usize].0),
    )
    .chunked(2000)
}

/// Given histories, each from its own initial state: long ones that no exhaustive depth reaches.
pub fn scripts<M: Model, I: Impl<M> + 'static>(
    name: &str,
    n: u64,
    script: impl Fn(u64) -> (M, Vec<M::Op>) + Clone + 'static,
    start: impl Fn(&M) -> I + 'static,
    label: impl Fn(u64) -> String + 'static,
) -> Space {
    Space::new(
        name,
        n,
        move |i, rec| {
            let (init, ops) = script(i);
            run(&init, &start, &ops, 0, rec);
        },
        label,
    )
    .chunked(4)
}
