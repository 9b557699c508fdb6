//! CSS tokens (css-syntax-3), as far as they matter for comparing values, selectors and conditions
//! whose optional white space may differ.
use crate::css::Flat;

fn ident_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || !c.is_ascii()
}
fn ident_char(c: char) -> bool {
    ident_start(c) || c.is_ascii_digit() || c == '-'
}

fn at(b: &[char], i: usize) -> char {
    b.get(i).copied().unwrap_or('\0')
}
fn starts_ident(b: &[char], i: usize) -> bool {
    match at(b, i) {
        '-' => at(b, i + 1) == '-' || ident_start(at(b, i + 1)) || at(b, i + 1) == '\\',
        '\\' => i + 1 < b.len(),
        c => c != '\0' && ident_start(c),
    }
}
fn starts_number(b: &[char], i: usize) -> bool {
    let i = if matches!(at(b, i), '+' | '-') { i + 1 } else { i };
    at(b, i).is_ascii_digit() || (at(b, i) == '.' && at(b, i + 1).is_ascii_digit())
}
fn ident(b: &[char], mut i: usize) -> usize {
    while i < b.len() {
        if b[i] == '\\' && i + 1 < b.len() {
            i += 2;
        } else if ident_char(b[i]) {
            i += 1;
        } else {
            break;
        }
    }
    i
}

/// The tokens of a piece of CSS; white space is `" "`, comments vanish but separate tokens.
pub fn tokens(s: &str) -> Vec<String> {
    let b: Vec<char> = s.chars().collect();
    let mut v: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        let c = b[i];
        if c.is_ascii_whitespace() {
            while i < b.len() && b[i].is_ascii_whitespace() {
                i += 1;
            }
            if v.last().map(|l| l != " ").unwrap_or(true) {
                v.push(" ".into());
            }
            continue;
        }
        if c == '/' && at(&b, i + 1) == '*' {
            i += 2;
            while i < b.len() && !(b[i] == '*' && at(&b, i + 1) == '/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == '"' || c == '\'' {
            i += 1;
            while i < b.len() && b[i] != c {
                i += if b[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if starts_number(&b, i) {
            i += 1;
            while at(&b, i).is_ascii_digit() || (at(&b, i) == '.' && at(&b, i + 1).is_ascii_digit()) {
                i += 1;
            }
            if matches!(at(&b, i), 'e' | 'E')
                && (at(&b, i + 1).is_ascii_digit() || (matches!(at(&b, i + 1), '+' | '-') && at(&b, i + 2).is_ascii_digit()))
            {
                i += 2;
                while at(&b, i).is_ascii_digit() {
                    i += 1;
                }
            }
            if at(&b, i) == '%' {
                i += 1;
            } else if starts_ident(&b, i) {
                i = ident(&b, i);
            }
        } else if starts_ident(&b, i) {
            i = ident(&b, i);
            if at(&b, i) == '(' {
                i += 1;
            }
        } else if (c == '#' || c == '@') && (ident_char(at(&b, i + 1)) || at(&b, i + 1) == '\\') {
            i = ident(&b, i + 1);
        } else {
            i += 1;
        }
        v.push(b[st..i.min(b.len())].iter().collect());
    }
    v
}

/// Tokens without white space, for values and conditions.
pub fn value(s: &str) -> String {
    tokens(s).into_iter().filter(|t| t != " ").collect::<Vec<_>>().join("\u{b7}")
}

/// Tokens with white space only where it is a descendant combinator.
pub fn selector(s: &str) -> String {
    let t = tokens(s);
    let mut out: Vec<String> = vec![];
    let mut brackets = 0;
    for (i, k) in t.iter().enumerate() {
        match k.as_str() {
            "[" => brackets += 1,
            "]" => brackets -= 1,
            " " => {
                let prev = if i == 0 { "," } else { &t[i - 1] };
                let next = t.get(i + 1).map(|s| s.as_str()).unwrap_or(",");
                if brackets > 0
                    || prev.ends_with('(')
                    || matches!(prev, "," | ">" | "+" | "~" | "[")
                    || matches!(next, "," | ">" | "+" | "~" | ")" | "]")
                {
                    continue;
                }
            }
            _ => {}
        }
        out.push(k.clone());
    }
    out.join("\u{b7}")
}

/// A meaning with optional white space inside its parts taken out.
pub fn lenient(v: &[Flat]) -> Vec<Flat> {
    v.iter()
        .map(|f| match f {
            Flat::Decl { chain, sel, key, val } => Flat::Decl {
                chain: chain.iter().map(|c| value(c)).collect(),
                sel: sel.iter().map(|c| selector(c)).collect(),
                key: key.clone(),
                val: value(val),
            },
            Flat::Empty { chain } => Flat::Empty { chain: chain.iter().map(|c| value(c)).collect() },
        })
        .collect()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn splits() {
        assert_eq!(value("1px 2px"), "1px·2px");
        assert_eq!(value("1px2px"), "1px2px");
        assert_eq!(value("50%10px"), "50%·10px");
        assert_ne!(value("a and (b:c)"), value("a and(b:c)"));
        assert_eq!(value("a(b,c)"), value("a( b , c )"));
        assert_eq!(selector("a > b"), selector("a>b"));
        assert_ne!(selector("a b"), selector("ab"));
        assert_ne!(selector(".a .b"), selector(".a.b"));
        assert_eq!(selector("a[ b *= \"c\"]"), selector("a[b*=\"c\"]"));
    }
}
