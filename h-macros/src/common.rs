use crate::batch::*;
use mck::css::{flatten, show, Flat};
use mck::csstok::lenient;
use mck::driver::*;

/// Compares the two renderings (scoped as C, global) of a unit with the expected meanings.
pub fn judge(out: &Out, want: [&[Flat]; 2]) -> Result<(), (&'static str, String)> {
    match out {
        Out::Refused(m) => Err(("refused", format!("the compiler refused it: {m}"))),
        Out::Panic(m) => Err(("panic", m.clone())),
        Out::Ok(v) => {
            for (i, w) in want.iter().enumerate() {
                let got = match flatten(&v[i]) {
                    Ok(f) => f,
                    Err(e) => return Err(("malformed", format!("{e}\n{}", v[i]))),
                };
                if lenient(&got) != lenient(w) {
                    return Err(("meaning", format!("the generated CSS:\n{}\nmeans:\n{}\nexpected:\n{}", v[i], show(&got), show(w))));
                }
            }
            if let Some(e) = v.get(2).filter(|e| !e.is_empty()) {
                return Err(("unparsable", format!("the generated CSS is refused by the parser: {e}\n{}", v[0])));
            }
            Ok(())
        }
    }
}

/// Cases that are compiled together; each group of `per_unit` cases becomes one macro call, and the
/// cases of a call that fails are run again one by one.
pub fn grouped<C: Clone>(
    cases: &[C],
    per_unit: usize,
    rec: &mut Rec,
    unit: &dyn Fn(&[C]) -> (Unit, [Vec<Flat>; 2]),
) {
    fn go<C: Clone>(cases: &[C], per_unit: usize, rec: &mut Rec, unit: &dyn Fn(&[C]) -> (Unit, [Vec<Flat>; 2])) {
        let groups: Vec<&[C]> = cases.chunks(per_unit).collect();
        let made: Vec<(Unit, [Vec<Flat>; 2])> = groups.iter().map(|g| unit(g)).collect();
        let (units, want): (Vec<Unit>, Vec<[Vec<Flat>; 2]>) = made.into_iter().unzip();
        let out = run(&units);
        let mut again: Vec<C> = vec![];
        let mut whole: Vec<(String, String)> = vec![];
        for (i, o) in out.iter().enumerate() {
            match judge(o, [&want[i][0], &want[i][1]]) {
                Ok(()) => {
                    for _ in groups[i] {
                        rec.eval();
                    }
                    rec.distinct(&units[i].body);
                    rec.sample(|| units[i].body.clone());
                }
                Err((sig, d)) if per_unit == 1 => {
                    rec.eval();
                    rec.violation(format!("{sig} {}", units[i].body), format!("{}\n{d}", units[i].body));
                }
                Err((sig, d)) => {
                    whole.push((format!("{sig} in a group"), format!("{}\n{d}", units[i].body)));
                    again.extend(groups[i].iter().cloned());
                }
            }
        }
        if !again.is_empty() {
            again.truncate(2000);
            let before = rec.has_violation();
            go(&again, 1, rec, unit);
            if !before && !rec.has_violation() {
                for (s, d) in whole {
                    rec.violation(s, d);
                }
            }
        }
    }
    go(cases, per_unit, rec, unit);
}

/// A space whose cases are batches of `size` programs.
pub fn batches<C: Clone + 'static>(
    name: &str,
    cases: Vec<C>,
    size: usize,
    per_unit: usize,
    show: impl Fn(&C) -> String + 'static,
    unit: impl Fn(&[C]) -> (Unit, [Vec<Flat>; 2]) + 'static,
) -> Space {
    let n = cases.len().div_ceil(size) as u64;
    let cases = std::rc::Rc::new(cases);
    let c2 = cases.clone();
    let part = move |i: u64, c: &[C]| {
        let a = i as usize * size;
        c[a..(a + size).min(c.len())].to_vec()
    };
    Space::new(
        name,
        n,
        move |i, rec| {
            let p = part(i, &cases);
            rec.count_n("programs", p.len() as u64);
            grouped(&p, per_unit, rec, &unit)
        },
        move |i| {
            let p = part(i, &c2);
            format!("{} programs from {}", p.len(), show(&p[0]))
        },
    )
    .chunked(1)
}
