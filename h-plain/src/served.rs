//! C16: data made by another process, with names of that process' counter.
use std::collections::BTreeSet;
use std::process::Command;

use mck::driver::*;
use mck::hist::Fail;
use stylist::manager::{render_static, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};

const CSS: [&str; 2] = ["color: red;", "@media x { margin: 1px; } &:hover { top: 0; }"];
/// (prefix, global, sheet)
const WANTS: [(&str, bool, usize); 5] = [("p", false, 0), ("p", true, 0), ("p", false, 1), ("q-style", false, 0), ("p", true, 1)];

fn create(m: &StyleManager, w: usize) -> (String, String) {
    let (p, g, s) = WANTS[w];
    if g {
        let x = GlobalStyle::new_with_manager(CSS[s], m).expect("global");
        (x.id().to_string(), x.get_style_str().to_string())
    } else {
        let x = Style::create_with_manager(p, CSS[s], m).expect("style");
        (x.get_class_name().to_string(), x.get_style_str().to_string())
    }
}

/// The other process: creates the styles named in the variable and prints their data.
pub fn serve() -> bool {
    let Ok(v) = std::env::var("MCK_SERVE") else { return false };
    let v: Vec<usize> = v.bytes().map(|b| (b - b'0') as usize).collect();
    // What the process did before.
    let other = StyleManager::builder().build().expect("manager");
    for i in 0..v[0] {
        create(&other, i % WANTS.len());
    }
    let (w, r) = render_static();
    let m = StyleManager::builder().prefix("p".into()).writer(w).build().expect("manager");
    let made: Vec<(String, String)> = v[1..].iter().map(|i| create(&m, *i)).collect();
    println!("{}", serde_json::to_string(&(made, serde_json::to_value(r.read_style_data()).unwrap())).unwrap());
    true
}

fn case(v: &[usize], rec: &mut Rec) -> Result<(), Fail> {
    let prog: String = v.iter().map(|i| i.to_string()).collect();
    let o = Command::new(std::env::current_exe().unwrap()).env("MCK_SERVE", &prog).output().expect("other process");
    let (made, data): (Vec<(String, String)>, serde_json::Value) = serde_json::from_slice(&o.stdout).map_err(|e| ("other process failed".to_string(), format!("{e}: {}", String::from_utf8_lossy(&o.stderr))))?;
    // Every style first, each with the others after it.
    for first in 0..WANTS.len() {
        rec.eval();
        rec.trace();
        let o = Command::new(std::env::current_exe().unwrap()).env("MCK_CLIENT", serde_json::to_string(&(first, &data)).unwrap()).output().expect("client process");
        let got: Vec<(String, String)> = serde_json::from_slice(&o.stdout).map_err(|e| ("client failed".to_string(), format!("{e}: {}", String::from_utf8_lossy(&o.stderr))))?;
        let mut seen: BTreeSet<&str> = made.iter().map(|m| m.0.as_str()).collect();
        for (k, g) in got.iter().enumerate() {
            // The last ones are made in another manager, which has loaded nothing.
            let w = (first + k) % WANTS.len();
            match v[1..].iter().position(|x| *x == w).filter(|_| k < WANTS.len()) {
                Some(s) => {
                    if made[s] != *g {
                        return Err(("style of the server not restored".into(), format!("{:?} instead of {:?}", g, made[s])));
                    }
                }
                None => {
                    if !seen.insert(g.0.as_str()) {
                        return Err(("class of another style".into(), format!("{:?} is new but has the name of another style; the server made {made:?}, the client {got:?}", g)));
                    }
                }
            }
        }
    }
    rec.distinct(&prog);
    rec.sample(|| format!("server with {v:?}: {made:?}"));
    Ok(())
}

/// The client's process: loads the data, twice, and creates everything.
pub fn client() -> bool {
    let Ok(v) = std::env::var("MCK_CLIENT") else { return false };
    let (first, data): (usize, serde_json::Value) = serde_json::from_str(&v).unwrap();
    let data: StyleData = serde_json::from_value(data).unwrap();
    let data: StyleData = bincode::deserialize(&bincode::serialize(&data).unwrap()).unwrap();
    let m = StyleManager::builder().prefix("p".into()).build().expect("manager");
    m.load_style_data(&data);
    if first % 2 == 0 {
        m.load_style_data(&data);
    }
    let n = StyleManager::builder().prefix("p".into()).build().expect("manager");
    let mut out: Vec<(String, String)> = (0..WANTS.len()).map(|k| create(&m, (first + k) % WANTS.len())).collect();
    out.extend((0..WANTS.len()).map(|k| create(&n, (first + k) % WANTS.len())));
    println!("{}", serde_json::to_string(&out).unwrap());
    true
}

pub fn c16(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let most = if t { 4 } else { 3 };
    let mut l: Vec<Vec<usize>> = vec![];
    for before in 0..=(if t { 4 } else { 2 }) {
        for i in 0..seq_count(WANTS.len() as u64, 0, most) {
            let s = seq_decode(i, WANTS.len() as u64, 0, most);
            if s.iter().collect::<BTreeSet<_>>().len() == s.len() {
                l.push([vec![before * 2], s].concat());
            }
        }
    }
    let l = std::rc::Rc::new(l);
    let l2 = l.clone();
    Check {
        property: "C16",
        level: "model_checking",
        rule: "every sequence of distinct styles made by a server process (after none to some other styles) and loaded by a client process that then creates every style, each one first, in the manager that loaded the data and in another one: styles of the server come back, all others get names that nobody has; distinct by server program".into(),
        bounds: format!("sequences of up to {most} of {} styles, names from counters", WANTS.len()),
        assumptions: vec!["data is loaded before the client creates styles, as documented".into()],
        spaces: vec![Space::new(
            "data of another process",
            l.len() as u64,
            move |i, rec| match case(&l[i as usize], rec) {
                Ok(()) => rec.step("server", &format!("{:?}", l[i as usize]), "client"),
                Err((s, d)) => rec.violation(s, d),
            },
            move |i| format!("server {:?}", l2[i as usize]),
        )],
    }
}
