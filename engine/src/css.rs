//! An independent reader of CSS text: token-aware of strings, comments, escapes and brackets.
//! `flatten` turns printed CSS into its meaning: a list of declarations, each under its chain of
//! at-rules and its selector list.  White space and comments are normalised away, so the way the
//! text is laid out, or split into several blocks, does not matter; order does.

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Flat {
    Decl {
        chain: Vec<String>,
        sel: Vec<String>,
        key: String,
        val: String,
    },
    /// A @keyframes rule without any declaration.
    Empty { chain: Vec<String> },
}

impl std::fmt::Display for Flat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Flat::Decl { chain, sel, key, val } => {
                for c in chain {
                    write!(f, "{c} / ")?;
                }
                write!(f, "{} {{ {key}: {val} }}", sel.join(" , "))
            }
            Flat::Empty { chain } => write!(f, "{} {{}}", chain.join(" / ")),
        }
    }
}

pub fn show(v: &[Flat]) -> String {
    v.iter().map(|f| f.to_string()).collect::<Vec<_>>().join("\n")
}

/// A lexical unit that matters for structure.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum U {
    Ws,
    Comment,
    Str,
    Ch(char),
    /// Backslash and the escaped character.
    Esc,
}

/// Splits into units (kind, start, end). Unterminated strings and comments are errors.
pub fn units(s: &str) -> Result<Vec<(U, usize, usize)>, String> {
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let end = |i: usize| if i < b.len() { b[i].0 } else { s.len() };
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let (st, c) = b[i];
        if c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}' {
            let mut j = i;
            while j < b.len() && matches!(b[j].1, ' ' | '\t' | '\n' | '\r' | '\u{c}') {
                j += 1;
            }
            v.push((U::Ws, st, end(j)));
            i = j;
        } else if c == '/' && i + 1 < b.len() && b[i + 1].1 == '*' {
            let rest = &s[st + 2..];
            match rest.find("*/") {
                Some(p) => {
                    let e = st + 2 + p + 2;
                    v.push((U::Comment, st, e));
                    while i < b.len() && b[i].0 < e {
                        i += 1;
                    }
                }
                None => return Err("unterminated comment".into()),
            }
        } else if c == '"' || c == '\'' {
            let mut j = i + 1;
            loop {
                if j >= b.len() {
                    return Err("unterminated string".into());
                }
                if b[j].1 == '\\' {
                    j += 2;
                    continue;
                }
                if b[j].1 == c {
                    break;
                }
                j += 1;
            }
            v.push((U::Str, st, end(j + 1)));
            i = j + 1;
        } else if c == '\\' {
            if i + 1 >= b.len() {
                return Err("backslash at the end".into());
            }
            v.push((U::Esc, st, end(i + 2)));
            i += 2;
        } else {
            v.push((U::Ch(c), st, end(i + 1)));
            i += 1;
        }
    }
    Ok(v)
}

/// Comments become nothing (or `/**/` where two words would otherwise run together), white space
/// runs one space, ends are trimmed. Strings are untouched.
pub fn norm(s: &str) -> String {
    let Ok(us) = units(s) else {
        return s.split_whitespace().collect::<Vec<_>>().join(" ");
    };
    let word = |c: char| c.is_alphanumeric() || c == '-' || c == '_' || c == '\\' || !c.is_ascii();
    let mut o = String::new();
    let (mut ws, mut cm) = (false, false);
    for (u, a, b) in us {
        match u {
            U::Ws => ws = true,
            U::Comment => cm = true,
            _ => {
                let t = &s[a..b];
                if !o.is_empty() {
                    if ws {
                        o.push(' ');
                    } else if cm && o.ends_with(word) && t.starts_with(word) {
                        o.push_str("/**/");
                    }
                }
                o.push_str(t);
                (ws, cm) = (false, false);
            }
        }
    }
    o
}

/// Splits at top-level commas (outside strings, comments, brackets).
pub fn split_commas(s: &str) -> Vec<String> {
    let Ok(us) = units(s) else {
        return vec![s.to_string()];
    };
    let mut out = vec![];
    let mut depth = 0i32;
    let mut st = 0;
    for (u, a, b) in us {
        match u {
            U::Ch('(') | U::Ch('[') => depth += 1,
            U::Ch(')') | U::Ch(']') => depth -= 1,
            U::Ch(',') if depth == 0 => {
                out.push(s[st..a].to_string());
                st = b;
            }
            _ => {}
        }
    }
    out.push(s[st..].to_string());
    out
}

pub fn norm_list(s: &str) -> Vec<String> {
    split_commas(s).iter().map(|m| norm(m)).collect()
}

/// Are parentheses and square brackets balanced (outside strings and comments)?
pub fn balanced(s: &str) -> bool {
    let Ok(us) = units(s) else { return false };
    let mut st = vec![];
    for (u, _, _) in us {
        match u {
            U::Ch(c @ ('(' | '[')) => st.push(c),
            U::Ch(')') => {
                if st.pop() != Some('(') {
                    return false;
                }
            }
            U::Ch(']') => {
                if st.pop() != Some('[') {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}

struct P<'a> {
    s: &'a str,
    us: Vec<(U, usize, usize)>,
    i: usize,
    out: Vec<Flat>,
    kf: usize,
    opaque_brackets: bool,
}

impl P<'_> {
    fn skip(&mut self) {
        while self.i < self.us.len() && matches!(self.us[self.i].0, U::Ws | U::Comment) {
            self.i += 1;
        }
    }
    /// Text up to a top-level '{', ';' or '}' or the end. Returns (text, terminator).
    fn prelude(&mut self) -> (String, Option<char>) {
        let st = if self.i < self.us.len() { self.us[self.i].1 } else { self.s.len() };
        let mut depth = 0i32;
        while self.i < self.us.len() {
            let (u, a, _) = self.us[self.i];
            match u {
                U::Ch('(') | U::Ch('[') if self.opaque_brackets => depth += 1,
                U::Ch(')') | U::Ch(']') if self.opaque_brackets => depth = (depth - 1).max(0),
                U::Ch(c @ ('{' | '}' | ';')) if depth == 0 => {
                    return (self.s[st..a].to_string(), Some(c));
                }
                _ => {}
            }
            self.i += 1;
        }
        (self.s[st..].to_string(), None)
    }
    fn block(
        &mut self,
        chain: &[String],
        sel: Option<&Vec<String>>,
        top: bool,
        in_kf: bool,
    ) -> Result<(), String> {
        loop {
            self.skip();
            if self.i >= self.us.len() {
                return if top { Ok(()) } else { Err("missing '}'".into()) };
            }
            match self.us[self.i].0 {
                U::Ch('}') => {
                    if top {
                        return Err("stray '}'".into());
                    }
                    self.i += 1;
                    return Ok(());
                }
                U::Ch(';') => {
                    self.i += 1;
                }
                U::Ch('@') => {
                    let (p, t) = self.prelude();
                    if t != Some('{') {
                        return Err(format!("at-rule without a block: {p}"));
                    }
                    self.i += 1;
                    let mut c = chain.to_vec();
                    let cond = norm(&p);
                    if cond.starts_with("@keyframes") || cond.starts_with("@-webkit-keyframes") {
                        let k = self.kf;
                        self.kf += 1;
                        c.push(format!("{cond} #{k}"));
                        let before = self.out.len();
                        self.block(&c, sel, false, true)?;
                        if self.out.len() == before {
                            self.out.push(Flat::Empty { chain: c });
                        }
                    } else {
                        c.push(cond);
                        self.block(&c, sel, false, in_kf)?;
                    }
                }
                _ => {
                    let (p, t) = self.prelude();
                    match t {
                        Some('{') => {
                            if sel.is_some() {
                                return Err(format!("rule inside a rule: {p}"));
                            }
                            let l = norm_list(&p);
                            if l.iter().any(|m| m.is_empty()) {
                                return Err(format!("empty selector in list: {p:?}"));
                            }
                            self.i += 1;
                            self.block(chain, Some(&l), false, in_kf)?;
                        }
                        _ => {
                            let Some(sel) = sel else {
                                return Err(format!("declaration outside any rule: {p:?}"));
                            };
                            let Some((k, v)) = p.split_once(':') else {
                                return Err(format!("not a declaration: {p:?}"));
                            };
                            let (k, v) = (norm(k), norm(v));
                            if k.is_empty() || v.is_empty() || k.contains(' ') {
                                return Err(format!("bad declaration: {p:?}"));
                            }
                            self.out.push(Flat::Decl {
                                chain: chain.to_vec(),
                                sel: sel.clone(),
                                key: k,
                                val: v,
                            });
                        }
                    }
                }
            }
        }
    }
}

/// The meaning of printed CSS, or why it is not well formed.
pub fn flatten(s: &str) -> Result<Vec<Flat>, String> {
    flatten_opt(s, true)
}
/// `opaque_brackets` false: brackets are ordinary characters (for text with unbalanced ones).
pub fn flatten_opt(s: &str, opaque_brackets: bool) -> Result<Vec<Flat>, String> {
    let mut p = P {
        s,
        us: units(s)?,
        i: 0,
        out: vec![],
        kf: 0,
        opaque_brackets,
    };
    p.block(&[], None, true, false)?;
    Ok(p.out)
}

/// All non-white-space, non-comment text without the characters of `drop`.
pub fn squeeze(s: &str, drop: &str) -> Result<String, String> {
    let mut o = String::new();
    for (u, a, b) in units(s)? {
        match u {
            U::Ws | U::Comment => {}
            U::Ch(c) if drop.contains(c) => {}
            _ => o.push_str(&s[a..b]),
        }
    }
    Ok(o)
}
