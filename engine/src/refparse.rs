//! A reference parser for the supported grammar, written from the documentation and the CSS
//! syntax specification (block structure; selectors, conditions and values are opaque component
//! values).  It is independent of the parser under test and answers, for any text:
//!
//! * `Must(sheet)`: the text is in the supported grammar and has to be accepted as `sheet`;
//! * `May(sheet)`: the text is a stylesheet in CSS, but uses something the library does not
//!   promise to accept; if it is accepted it has to mean `sheet`;
//! * `Loose`: CSS error recovery or interpolation syntax gives the text some meaning, which the
//!   library does not promise; only losslessness is required when it is accepted;
//! * `Bad`: not a stylesheet of this dialect; it has to be refused.
use crate::css::{balanced, norm, split_commas, units, U};
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
    Must(Sheet),
    May(Sheet, &'static str),
    Loose(&'static str),
    Bad(String),
}

enum Stop {
    Loose(&'static str),
    Bad(String),
}
type R<T> = Result<T, Stop>;

struct P<'a> {
    s: &'a str,
    us: Vec<(U, usize, usize)>,
    i: usize,
    may: Option<&'static str>,
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Top,
    Nested,
    Frame,
}

fn is_ident(s: &str) -> bool {
    let mut c = s.chars();
    match c.next() {
        Some(f) if f.is_ascii_alphabetic() || f == '-' || f == '_' || !f.is_ascii() => {}
        _ => return false,
    }
    c.all(|f| f.is_ascii_alphanumeric() || f == '-' || f == '_' || !f.is_ascii())
}

impl P<'_> {
    fn may(&mut self, why: &'static str) {
        self.may.get_or_insert(why);
    }
    fn skip(&mut self) {
        while self.i < self.us.len() && matches!(self.us[self.i].0, U::Ws | U::Comment) {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<U> {
        self.us.get(self.i).map(|m| m.0)
    }
    fn prelude(&mut self) -> R<(String, Option<char>)> {
        let st = if self.i < self.us.len() { self.us[self.i].1 } else { self.s.len() };
        let mut stack = vec![];
        while self.i < self.us.len() {
            let (u, a, b) = self.us[self.i];
            match u {
                U::Ch(c @ ('(' | '[')) => stack.push(c),
                U::Ch(')') => {
                    if stack.pop() != Some('(') {
                        return Err(Stop::Loose("unbalanced bracket"));
                    }
                }
                U::Ch(']') => {
                    if stack.pop() != Some('[') {
                        return Err(Stop::Loose("unbalanced bracket"));
                    }
                }
                U::Ch('$') => {
                    // `[href$="x"]` is an ordinary selector; any other '$' is interpolation.
                    if !(stack.last() == Some(&'[') && self.us.get(self.i + 1).map(|m| m.0) == Some(U::Ch('='))) {
                        return Err(Stop::Loose("dollar"));
                    }
                }
                U::Esc => {
                    let c = self.s[a..b].chars().nth(1).unwrap();
                    if matches!(c, '\n' | '\r' | '\x0c') {
                        return Err(Stop::Loose("escaped line break"));
                    }
                }
                U::Ch(c @ ('{' | '}' | ';')) if stack.is_empty() => {
                    return Ok((self.s[st..a].to_string(), Some(c)));
                }
                U::Ch('{' | '}') => return Err(Stop::Loose("brace in brackets")),
                _ => {}
            }
            self.i += 1;
        }
        if !stack.is_empty() {
            return Err(Stop::Loose("unbalanced bracket"));
        }
        Ok((self.s[st..].to_string(), None))
    }

    fn decl(&mut self, p: &str) -> R<Decl> {
        let Some((k, v)) = split_colon(p) else {
            return Err(Stop::Bad(format!("not a declaration: {p:?}")));
        };
        let (kn, vn) = (norm(k), norm(v));
        if !is_ident(&kn) {
            return Err(Stop::Bad(format!("bad property name {kn:?}")));
        }
        if vn.is_empty() {
            return Err(Stop::Bad(format!("empty value: {p:?}")));
        }
        // A comment inside a value (not at its ends), a slash next to a delimiter: not promised.
        let us = units(v).map_err(Stop::Bad)?;
        let first = us.iter().position(|m| !matches!(m.0, U::Ws | U::Comment));
        let last = us.iter().rposition(|m| !matches!(m.0, U::Ws | U::Comment));
        if let (Some(f), Some(l)) = (first, last) {
            for i in f..=l {
                if us[i].0 == U::Comment {
                    self.may("comment inside a value");
                }
                if us[i].0 == U::Ch('/')
                    && (i == l || matches!(us[i + 1].0, U::Str | U::Comment | U::Ch('/')))
                {
                    self.may("slash before a delimiter");
                }
            }
        }
        Ok(Decl { key: kn, val: vn })
    }

    fn selectors(&mut self, p: &str) -> R<Vec<String>> {
        let l: Vec<String> = split_commas(p);
        if l.len() > 1 && l.last().map(|m| norm(m).is_empty()) == Some(true) {
            return Err(Stop::Loose("trailing comma in a selector list"));
        }
        if l.iter().any(|m| norm(m).is_empty()) {
            return Err(Stop::Bad(format!("empty selector in {p:?}")));
        }
        for m in &l {
            if m.contains('@') && units(m).map(|u| u.iter().any(|x| x.0 == U::Ch('@'))).unwrap_or(true) {
                self.may("'@' in a selector");
            }
        }
        Ok(l)
    }

    /// Positioned on '@'. Returns the name and the condition.
    fn at(&mut self) -> R<(String, String)> {
        let (p, t) = self.prelude()?;
        if t != Some('{') {
            return Err(Stop::Bad(format!("at-rule without a block: {p:?}")));
        }
        self.i += 1;
        let name: String = p.chars().skip(1).take_while(|c| c.is_ascii_alphanumeric() || *c == '-' || *c == '_' || !c.is_ascii()).collect();
        if !matches!(name.as_str(), "media" | "supports" | "container" | "keyframes") {
            return Err(Stop::Bad(format!("unsupported at-rule @{name}")));
        }
        let rest = &p[1 + name.len()..];
        if !rest.starts_with([' ', '\t', '\r', '\n', '\x0c', '(']) && !rest.starts_with("/*") {
            self.may("no space after the at-keyword");
        }
        if name == "keyframes" && rest.starts_with('(') {
            self.may("keyframes without a name");
        }
        if name != "media" && rest.trim_matches([' ', '\t', '\r', '\n', '\x0c']).is_empty() {
            return Err(Stop::Bad(format!("@{name} without a condition")));
        }
        if norm(rest).is_empty() {
            self.may("empty condition");
        }
        let us = units(rest).map_err(Stop::Bad)?;
        if us.iter().any(|m| m.0 == U::Comment) {
            self.may("comment inside a condition");
        }
        if us.iter().any(|m| m.0 == U::Ch('@')) {
            self.may("'@' in a condition");
        }
        let inner: Vec<_> = us.iter().filter(|m| m.0 != U::Ws).collect();
        let rest = match (inner.first(), inner.last()) {
            (Some(f), Some(l)) => &rest[f.1..l.2],
            _ => "",
        };
        let cond = format!("@{name} {rest}");
        Ok((name, cond))
    }

    fn bitems(&mut self, ctx: Ctx) -> R<Vec<BItem>> {
        let mut out = vec![];
        loop {
            self.skip();
            match self.peek() {
                None => return Err(Stop::Bad("missing '}'".into())),
                Some(U::Ch('}')) => {
                    self.i += 1;
                    return Ok(out);
                }
                Some(U::Ch(';')) => {
                    self.may("empty declaration");
                    self.i += 1;
                }
                Some(U::Ch('@')) => {
                    let (name, cond) = self.at()?;
                    if ctx == Ctx::Frame {
                        return Err(Stop::Loose("at-rule in a frame"));
                    }
                    if name == "keyframes" {
                        return Err(Stop::Bad(format!("{cond} inside a block")));
                    }
                    let b = self.bitems(ctx)?;
                    out.push(BItem::At(cond, b));
                }
                _ => {
                    let (p, t) = self.prelude()?;
                    match t {
                        Some('{') => return Err(Stop::Bad(format!("nested block {p:?}"))),
                        Some(';') => self.i += 1,
                        Some(_) => {}
                        None => return Err(Stop::Bad("missing '}'".into())),
                    }
                    out.push(BItem::Decl(self.decl(&p)?));
                }
            }
        }
    }

    fn items(&mut self, ctx: Ctx) -> R<Vec<Item>> {
        let mut out = vec![];
        loop {
            self.skip();
            match self.peek() {
                None => {
                    return if ctx == Ctx::Top {
                        Ok(out)
                    } else {
                        Err(Stop::Bad("missing '}'".into()))
                    }
                }
                Some(U::Ch('}')) => {
                    if ctx == Ctx::Top {
                        return Err(Stop::Bad("stray '}'".into()));
                    }
                    self.i += 1;
                    return Ok(out);
                }
                Some(U::Ch(';')) => {
                    self.may("empty declaration");
                    self.i += 1;
                }
                Some(U::Ch('@')) => {
                    let (name, cond) = self.at()?;
                    if name == "keyframes" {
                        let fs = self.frames()?;
                        out.push(Item::Keyframes(cond["@keyframes".len()..].to_string(), fs));
                    } else {
                        let v = self.items(Ctx::Nested)?;
                        out.push(Item::At(cond, v));
                    }
                }
                _ => {
                    let (p, t) = self.prelude()?;
                    match t {
                        Some('{') => {
                            self.i += 1;
                            let s = self.selectors(&p)?;
                            let b = self.bitems(Ctx::Nested)?;
                            out.push(Item::Block(s, b));
                        }
                        Some(';') => {
                            self.i += 1;
                            let d = self.decl(&p)?;
                            out.push(Item::Decl(d));
                        }
                        _ => {
                            // Declarations outside any block need their semicolon.
                            let d = self.decl(&p)?;
                            self.may("no final semicolon");
                            out.push(Item::Decl(d));
                        }
                    }
                }
            }
        }
    }

    fn frames(&mut self) -> R<Vec<Frame>> {
        let mut out = vec![];
        loop {
            self.skip();
            match self.peek() {
                None => return Err(Stop::Bad("missing '}'".into())),
                Some(U::Ch('}')) => {
                    self.i += 1;
                    return Ok(out);
                }
                Some(U::Ch('@')) => return Err(Stop::Bad("at-rule in keyframes".into())),
                _ => {
                    let (p, t) = self.prelude()?;
                    if t != Some('{') {
                        return Err(Stop::Bad(format!("not a frame: {p:?}")));
                    }
                    self.i += 1;
                    let cond = self.selectors(&p)?;
                    let mut decls = vec![];
                    for b in self.bitems(Ctx::Frame)? {
                        match b {
                            BItem::Decl(d) => decls.push(d),
                            BItem::At(..) => unreachable!(),
                        }
                    }
                    out.push(Frame { cond, decls });
                }
            }
        }
    }
}

fn split_colon(p: &str) -> Option<(&str, &str)> {
    // the first ':' that is not inside a comment
    let us = units(p).ok()?;
    for (u, a, b) in us {
        match u {
            U::Ch(':') => return Some((&p[..a], &p[b..])),
            U::Str => return None,
            _ => {}
        }
    }
    None
}

pub fn parse(s: &str) -> Ref {
    let us = match units(s) {
        Ok(u) => u,
        Err(e) => return Ref::Bad(e),
    };
    let mut p = P {
        s,
        us,
        i: 0,
        may: None,
    };
    match p.items(Ctx::Top) {
        Ok(sheet) => match p.may {
            None => Ref::Must(sheet),
            Some(w) => Ref::May(sheet, w),
        },
        Err(Stop::Loose(w)) => Ref::Loose(w),
        Err(Stop::Bad(e)) => {
            // Anything unbalanced or with '$' further on keeps its own zone.
            if !balanced(s) {
                Ref::Loose("unbalanced bracket")
            } else {
                Ref::Bad(e)
            }
        }
    }
}
