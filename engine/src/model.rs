//! A boring model of a stylesheet with its reference meaning.
use crate::css::{norm, units, Flat, U};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Decl {
    pub key: String,
    pub val: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum BItem {
    Decl(Decl),
    At(String, Vec<BItem>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Frame {
    pub cond: Vec<String>,
    pub decls: Vec<Decl>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    /// A declaration outside any block.
    Decl(Decl),
    Block(Vec<String>, Vec<BItem>),
    At(String, Vec<Item>),
    Keyframes(String, Vec<Frame>),
}
pub type Sheet = Vec<Item>;

pub fn decl(k: &str, v: &str) -> Decl {
    Decl {
        key: k.into(),
        val: v.into(),
    }
}

/// Reference rewriting of one selector, from the documentation of `Style`.
pub fn scope_selector(sel: &str, class: Option<&str>) -> String {
    let Ok(us) = units(sel) else { return norm(sel) };
    let start = us.iter().position(|m| !matches!(m.0, U::Ws | U::Comment)).unwrap_or(0);
    let us = &us[start..];
    let rep = match class {
        Some(c) => format!(".{c}"),
        None => ":root".to_string(),
    };
    let mut out = String::new();
    let mut found = false;
    let mut i = 0;
    while i < us.len() {
        let (u, a, b) = us[i];
        if u == U::Ch('&') {
            out.push_str(&rep);
            found = true;
            i += 1;
            continue;
        }
        if u == U::Ch(':') && class.is_some() && sel[a..].starts_with(":root") {
            out.push_str(&rep);
            found = true;
            i += 5;
            continue;
        }
        out.push_str(&sel[a..b]);
        i += 1;
    }
    if found || class.is_none() {
        norm(&out)
    } else if out.starts_with(':') {
        norm(&format!("{rep}{out}"))
    } else {
        norm(&format!("{rep} {out}"))
    }
}

pub fn scope_list(sels: &[String], class: Option<&str>) -> Vec<String> {
    sels.iter().map(|s| scope_selector(s, class)).collect()
}

struct X<'a> {
    class: Option<&'a str>,
    kf: usize,
    out: Vec<Flat>,
}
impl X<'_> {
    fn root(&self) -> Vec<String> {
        vec![match self.class {
            Some(c) => format!(".{c}"),
            None => ":root".into(),
        }]
    }
    fn decl(&mut self, chain: &[String], sel: &[String], d: &Decl) {
        self.out.push(Flat::Decl {
            chain: chain.to_vec(),
            sel: sel.to_vec(),
            key: norm(&d.key),
            val: norm(&d.val),
        });
    }
    fn bitems(&mut self, chain: &[String], sel: &[String], v: &[BItem]) {
        for b in v {
            match b {
                BItem::Decl(d) => self.decl(chain, sel, d),
                BItem::At(c, v) => {
                    let mut ch = chain.to_vec();
                    ch.push(norm(c));
                    self.bitems(&ch, sel, v);
                }
            }
        }
    }
    fn items(&mut self, chain: &[String], v: &[Item]) {
        for it in v {
            match it {
                Item::Decl(d) => {
                    let r = self.root();
                    self.decl(chain, &r, d)
                }
                Item::Block(s, b) => {
                    let s = scope_list(s, self.class);
                    self.bitems(chain, &s, b)
                }
                Item::At(c, v) => {
                    let mut ch = chain.to_vec();
                    ch.push(norm(c));
                    self.items(&ch, v);
                }
                Item::Keyframes(n, fs) => {
                    let mut ch = chain.to_vec();
                    ch.push(format!("{} #{}", norm(&format!("@keyframes {n}")), self.kf));
                    self.kf += 1;
                    let before = self.out.len();
                    for f in fs {
                        let cond: Vec<String> = f.cond.iter().map(|c| norm(c)).collect();
                        for d in &f.decls {
                            self.decl(&ch, &cond, d);
                        }
                    }
                    if self.out.len() == before {
                        self.out.push(Flat::Empty { chain: ch });
                    }
                }
            }
        }
    }
}

/// The meaning of a model sheet for a class (scoped) or without one (global).
pub fn expand(s: &Sheet, class: Option<&str>) -> Vec<Flat> {
    let mut x = X {
        class,
        kf: 0,
        out: vec![],
    };
    x.items(&[], s);
    x.out
}

/// Source text as a token list; between two tokens lies a gap, of a kind that says what may be
/// put there.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Gap {
    /// White space or comments, possibly nothing.
    Any,
    /// White space or comments, at least something.
    Sep,
    /// A semicolon that may be left out, with gaps around it.
    OptSemi,
}
#[derive(Clone, Debug)]
pub enum Tok {
    T(String),
    G(Gap),
}

struct E {
    v: Vec<Tok>,
}
impl E {
    fn t(&mut self, s: &str) {
        self.v.push(Tok::T(s.to_string()))
    }
    fn g(&mut self, g: Gap) {
        self.v.push(Tok::G(g))
    }
    fn decl(&mut self, d: &Decl, last_in_block: bool) {
        self.g(Gap::Any);
        self.t(&d.key);
        self.g(Gap::Any);
        self.t(":");
        self.g(Gap::Any);
        self.t(&d.val);
        self.g(Gap::Any);
        if last_in_block {
            self.g(Gap::OptSemi)
        } else {
            self.t(";")
        }
    }
    fn sels(&mut self, s: &[String]) {
        for (i, s) in s.iter().enumerate() {
            if i > 0 {
                self.g(Gap::Any);
                self.t(",");
            }
            self.g(Gap::Any);
            self.t(s);
        }
        self.g(Gap::Any);
    }
    fn at(&mut self, c: &str) {
        self.g(Gap::Any);
        let (name, cond) = c.split_once(' ').unwrap_or((c, ""));
        self.t(name);
        self.g(if cond.trim_start_matches([' ', '\t', '\r', '\n', '\x0c']).starts_with('(') { Gap::Any } else { Gap::Sep });
        self.t(cond);
        self.g(Gap::Any);
    }
    fn open(&mut self) {
        self.t("{");
    }
    fn close(&mut self) {
        self.g(Gap::Any);
        self.t("}");
    }
    fn bitems(&mut self, v: &[BItem]) {
        for (i, b) in v.iter().enumerate() {
            match b {
                BItem::Decl(d) => self.decl(d, i + 1 == v.len()),
                BItem::At(c, v) => {
                    self.at(c);
                    self.open();
                    self.bitems(v);
                    self.close();
                }
            }
        }
    }
    fn items(&mut self, v: &[Item]) {
        for it in v {
            match it {
                Item::Decl(d) => self.decl(d, false),
                Item::Block(s, b) => {
                    self.sels(s);
                    self.open();
                    self.bitems(b);
                    self.close();
                }
                Item::At(c, v) => {
                    self.at(c);
                    self.open();
                    self.items(v);
                    self.close();
                }
                Item::Keyframes(n, fs) => {
                    self.at(&format!("@keyframes {n}"));
                    self.open();
                    for f in fs {
                        self.sels(&f.cond);
                        self.open();
                        for (i, d) in f.decls.iter().enumerate() {
                            self.decl(d, i + 1 == f.decls.len());
                        }
                        self.close();
                    }
                    self.close();
                }
            }
        }
    }
}

pub fn tokens(s: &Sheet) -> Vec<Tok> {
    let mut e = E { v: vec![] };
    e.items(s);
    e.g(Gap::Any);
    e.v
}

/// Conventional text of a sheet.
pub fn text(s: &Sheet) -> String {
    let mut o = String::new();
    for t in tokens(s) {
        match t {
            Tok::T(t) => o.push_str(&t),
            Tok::G(Gap::Any) | Tok::G(Gap::Sep) => o.push(' '),
            Tok::G(Gap::OptSemi) => o.push(';'),
        }
    }
    o
}

/// Number of choices at a gap.
pub fn gap_choices(g: Gap) -> usize {
    match g {
        Gap::Any => ANY.len(),
        Gap::Sep => SEP.len(),
        Gap::OptSemi => SEMI.len(),
    }
}
/// Choice 0 is the default (minified) layout.
pub const ANY: &[&str] = &["", " ", "\n", "\t", "\r\n", "/**/", " /* a:b;{}@media \"x */ ", "/*/*/", "/***/ ", "\x0c"];
pub const SEP: &[&str] = &[" ", "  ", "\n", "\t", "\r\n", "/**/", " /* a:b;{}@media \"x */ ", "/*/*/", "/***/ ", "\x0c"];
pub const SEMI: &[&str] = &["", ";", " ; "];
pub fn gap_text(g: Gap, i: usize) -> &'static str {
    match g {
        Gap::Any => ANY[i],
        Gap::Sep => SEP[i],
        Gap::OptSemi => SEMI[i],
    }
}
/// Text with the given choice at given gap numbers, `base` at every other gap.
pub fn text_with(toks: &[Tok], base: usize, dev: &[(usize, usize)]) -> String {
    let mut o = String::new();
    let mut n = 0;
    for t in toks {
        match t {
            Tok::T(t) => o.push_str(t),
            Tok::G(g) => {
                let c = dev
                    .iter()
                    .find(|(i, _)| *i == n)
                    .map(|(_, c)| *c)
                    .unwrap_or_else(|| base.min(gap_choices(*g) - 1));
                o.push_str(gap_text(*g, c));
                n += 1;
            }
        }
    }
    o
}
pub fn gaps(toks: &[Tok]) -> Vec<Gap> {
    toks.iter()
        .filter_map(|t| match t {
            Tok::G(g) => Some(*g),
            _ => None,
        })
        .collect()
}
