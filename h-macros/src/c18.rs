//! C18: inline macros mean the CSS they spell.
use crate::batch::Unit;
use crate::c17::EXPRS;
use crate::common::*;
use mck::css::Flat;
use mck::driver::*;
use mck::enumr::*;
use mck::model::*;

/// Tokens of inline CSS, as documented.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(&'static str),
    Lit(&'static str),
    P(char),
    Fun(&'static str, Vec<T>),
    Par(Vec<T>),
    Brk(Vec<T>),
    /// An interpolated expression and what it displays.
    Ex(&'static str, &'static str),
}
use T::*;

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Word,
    Open,
    Close,
    P(char),
    Ex,
}
pub struct Leaf {
    pub src: String,
    pub text: String,
    pub k: K,
    /// White space before it is part of the meaning (a keyword before a parenthesis).
    pub gap: bool,
}

fn leaves(v: &[T], cond: bool, out: &mut Vec<Leaf>) {
    for (i, t) in v.iter().enumerate() {
        let mut put = |src: &str, text: &str, k| out.push(Leaf { src: src.into(), text: text.into(), k, gap: false });
        match t {
            Id(s) => put(s, s.strip_prefix("r#").unwrap_or(s), K::Word),
            Lit(s) => put(s, s, K::Word),
            P(c) => put(&c.to_string(), &c.to_string(), K::P(*c)),
            Ex(e, s) => put(&format!("${{{e}}}"), s, K::Ex),
            Fun(n, a) => {
                put(n, n, K::Word);
                put("(", "(", K::Open);
                leaves(a, false, out);
                out.push(Leaf { src: ")".into(), text: ")".into(), k: K::Close, gap: false });
            }
            Par(a) | Brk(a) => {
                let (o, c) = if matches!(t, Par(_)) { ("(", ")") } else { ("[", "]") };
                put(o, o, K::Open);
                if cond && i > 0 && matches!(&v[i - 1], Id(k) if matches!(*k, "and" | "or" | "not" | "only")) {
                    out.last_mut().unwrap().gap = true;
                }
                leaves(a, cond && o == "(", out);
                out.push(Leaf { src: c.into(), text: c.into(), k: K::Close, gap: false });
            }
        }
    }
}

/// The documented spacing rule.
pub fn spaced(l: &Leaf, r: &Leaf) -> bool {
    let left = matches!(l.k, K::Close | K::Word | K::P('*') | K::P('&'));
    let right = matches!(r.k, K::Word | K::P('*') | K::P('#'));
    (left && right) || r.gap
}

/// Source and meaning of a token sequence; `tight` leaves out the white space Rust doesn't need.
fn write(v: &[T], cond: bool, tight: bool) -> (String, String) {
    let mut l = vec![];
    leaves(v, cond, &mut l);
    let (mut src, mut text) = (String::new(), String::new());
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            let p = &l[i - 1];
            let word = |k| matches!(k, K::Word);
            if !tight || (word(p.k) && (word(x.k) || x.k == K::P('#'))) || x.gap || (p.k == K::P('/') && matches!(x.k, K::P(_))) {
                src.push(' ');
            }
            if spaced(p, x) {
                text.push(' ');
            }
        }
        src.push_str(&x.src);
        text.push_str(&x.text);
    }
    (src, text)
}

fn flat(alpha: &[Vec<T>], ix: &[usize]) -> Vec<T> {
    ix.iter().flat_map(|i| alpha[*i].iter().cloned()).collect()
}

/// A minus sign in front of a number or name is only unambiguous where no word precedes it.
fn minus_ok(v: &[T]) -> bool {
    v.windows(2).all(|w| match (&w[0], &w[1]) {
        (Id(_) | Lit(_) | P('-'), P('-')) => false,
        (Id(_), Id(n) | Fun(n, _)) => !n.starts_with('-'),
        _ => true,
    })
}

fn values() -> Vec<Vec<T>> {
    vec![
        vec![Id("red")], vec![Id("a-b")], vec![Id("--x")], vec![Lit("1")], vec![Lit("0.5")], vec![Lit("10px")], vec![Lit("50"), P('%')],
        vec![P('-'), Lit("1px")], vec![Lit("\"s\"")], vec![Lit("\"a;b}\\\"{$&\"")], vec![Fun("url", vec![Lit("\"x\"")])],
        vec![Fun("rgba", vec![Lit("1"), P(','), Lit("2"), P(','), Lit("0.3")])], vec![Fun("var", vec![Id("--y"), P(','), Lit("1px"), Lit("2px")])],
        vec![P('#'), Id("fff")], vec![P('#'), Lit("123")], vec![P(',')], vec![P('/')], vec![Ex("a", "blue")], vec![Ex("1 + 2", "3")], vec![Ex("\"\\\"}\\\"\"", "\"}\"")],
        vec![Id("r#type")], vec![Fun("f", vec![Fun("g", vec![Ex("a", "blue"), P(','), Id("h")]), Id("i")])],
    ]
}
fn selectors() -> Vec<Vec<T>> {
    vec![
        vec![Id("a")], vec![P('.'), Id("b")], vec![P('#'), Id("c")], vec![P('&')], vec![P('*')], vec![P('>')], vec![P('+')], vec![P('~')],
        vec![P(':'), Id("hover")], vec![P(':'), P(':'), Id("before")], vec![P(':'), Fun("not", vec![P('.'), Id("x")])],
        vec![P(':'), Fun("is", vec![Id("u"), P(','), P('.'), Id("y"), Id("z")])], vec![Brk(vec![Id("h")])],
        vec![Brk(vec![Id("h"), P('='), Lit("\"v,&\"")])], vec![Brk(vec![Id("h"), P('$'), P('='), Lit("\"v\"")])], vec![Brk(vec![Id("h-i"), P('*'), P('='), Lit("\"v\"")])],
        vec![Ex("s", ".e")], vec![Ex("t", "f")], vec![P(',')], vec![P('.'), Id("type-x")],
    ]
}
fn selector_ok(v: &[T]) -> bool {
    let comb = |t: &T| matches!(t, P('>' | '+' | '~'));
    // A name followed by a colon starts a declaration.
    if matches!(v[0], Id(_) | Ex(..)) && v.get(1) == Some(&P(':')) {
        return false;
    }
    v.split(|t| *t == P(',')).all(|s| {
        !s.is_empty() && !comb(&s[0]) && !comb(s.last().unwrap()) && s.windows(2).all(|w| !(comb(&w[0]) && comb(&w[1])))
    })
}
fn conds() -> Vec<Vec<T>> {
    let ab = |a, b| Par(vec![Id(a), P(':'), Id(b)]);
    vec![
        vec![Id("screen")], vec![Id("print")], vec![Id("and")], vec![Id("not")], vec![Id("or")], vec![Id("only")], vec![ab("a", "b")],
        vec![Par(vec![Id("min-width"), P(':'), Lit("10px")])], vec![Par(vec![Id("w"), P(':'), Ex("t", "f")])], vec![Par(vec![Id("width"), P('>'), P('='), Lit("6px")])],
        vec![Ex("c", "(c: d)")], vec![P(',')], vec![Par(vec![ab("a", "b"), Id("and"), ab("c", "d")])], vec![Par(vec![Id("not"), ab("a", "b")])],
        vec![Fun("selector", vec![Id("a"), P('>'), Id("b")])], vec![Fun("selector", vec![Id("q"), P(':'), Fun("not", vec![P('.'), Id("z")])])],
    ]
}
fn cond_ok(v: &[T]) -> bool {
    // Any other word before a parenthesis is the name of a function.
    v.windows(2).all(|w| !matches!((&w[0], &w[1]), (Id(k), Par(_)) if !matches!(*k, "and" | "or" | "not" | "only")))
}

/// Inline source with the sheet it spells.
#[derive(Clone)]
struct Inl {
    src: String,
    m: Sheet,
    mac: usize,
}
const LETS: &str = "let (a, s, t, c, n) = (\"blue\", String::from(\".e\"), \"f\", \"(c: d)\", \"name\");";

fn unit(g: &[Inl]) -> (Unit, [Vec<Flat>; 2]) {
    let src: String = g.iter().map(|i| i.src.as_str()).collect::<Vec<_>>().join(" ");
    let m: Sheet = g.iter().flat_map(|i| i.m.iter().cloned()).collect();
    let body = match g[0].mac % 3 {
        0 => format!("{{ {LETS} inl(sheet!({src})) }}"),
        1 => format!("{{ {LETS} inl(sheet! {{ {src} }}) }}"),
        _ => format!("{{ {LETS} let st_ = style!({src}).unwrap(); let gl_ = global_style!({src}).unwrap(); vec![st_.get_style_str().replace(st_.get_class_name(), \"C\"), gl_.get_style_str().to_string()] }}"),
    };
    (Unit { body }, [Some("C"), None].map(|c| expand(&m, c)))
}

fn sequences(alpha: Vec<Vec<T>>, hi: u32, ok: fn(&[T]) -> bool, cond: bool, f: impl Fn(usize, &str, &str) -> (String, Item)) -> Vec<Inl> {
    let k = alpha.len() as u64;
    let mut out = vec![];
    for i in 0..seq_count(k, 1, hi) {
        let v = flat(&alpha, &seq_decode(i, k, 1, hi));
        if !ok(&v) {
            continue;
        }
        // Both layouts for short sequences, alternating for the rest.
        let layouts: &[bool] = if i < seq_count(k, 1, 2) { &[false, true] } else { &[i % 2 == 0] };
        for tight in layouts.iter().copied() {
            let (src, text) = write(&v, cond, tight);
            let (src, item) = f(out.len(), &src, &text);
            out.push(Inl { src, m: vec![item], mac: i as usize / 7 });
        }
    }
    out
}

fn split(list: &str) -> Vec<String> {
    mck::css::split_commas(list)
}

/// (source, meaning) of the atoms put at each place of a sheet.
const VALS: &[(&str, &str)] = &[("v", "v"), ("${a}", "blue"), ("f(${a}, \"x\")", "f(blue,\"x\")"), ("${1}, ${a} #fff", "1,blue#fff"), ("solid 1px", "solid 1px")];
const SELS: &[(&str, &str)] = &[(".s", ".s"), ("${s}", ".e"), ("&:hover > ${t}", "&:hover>f"), (".x.y u", ".x.y u"), ("[h=${t}]", "[h=f]")];
const CONDS: &[(&str, &str)] = &[("@media x", "@media x"), ("@supports ${c}", "@supports (c: d)"), ("@media screen and (w: ${t})", "@media screen and (w:f)"), ("@media ${t}, print", "@media f,print")];
const NAMES: &[(&str, &str)] = &[
    ("k", "k"), ("${n}", "name"), ("--x", "--x"), ("-webkit-a", "-webkit-a"), ("type", "type"), ("r#match", "match"), ("background-color", "background-color"), ("a_b", "a_b"), ("_x", "_x"), ("A", "A"),
    ("for-in", "for-in"), ("${\"lit-\"}", "lit-"), ("--a-b--c", "--a-b--c"), ("--", "--"), ("x--y", "x--y"), ("é", "é"), ("self", "self"), ("static", "static"),
];

/// Puts the picked atoms at the places of a sheet: one copy with sources, one with meanings.
fn place(s: &Sheet, pick: &dyn Fn(usize) -> usize) -> (Sheet, Sheet, usize) {
    struct W<'a>(usize, &'a dyn Fn(usize) -> usize);
    impl W<'_> {
        fn next(&mut self, l: &[(&str, &str)]) -> (String, String) {
            let p = (self.1)(self.0);
            self.0 += 1;
            let (a, b) = l[p % l.len()];
            (a.to_string(), b.to_string())
        }
        fn decl(&mut self, d: &Decl) -> (Decl, Decl) {
            let (s, m) = self.next(VALS);
            (decl(&d.key, &s), decl(&d.key, &m))
        }
        fn b(&mut self, v: &[BItem]) -> (Vec<BItem>, Vec<BItem>) {
            v.iter()
                .map(|i| match i {
                    BItem::Decl(d) => {
                        let (s, m) = self.decl(d);
                        (BItem::Decl(s), BItem::Decl(m))
                    }
                    BItem::At(_, v) => {
                        let (s, m) = self.next(CONDS);
                        let (x, y) = self.b(v);
                        (BItem::At(s, x), BItem::At(m, y))
                    }
                })
                .unzip()
        }
        fn items(&mut self, v: &[Item]) -> (Vec<Item>, Vec<Item>) {
            v.iter()
                .map(|i| match i {
                    Item::Decl(d) => {
                        let (s, m) = self.decl(d);
                        (Item::Decl(s), Item::Decl(m))
                    }
                    Item::Block(l, v) => {
                        let (ls, lm) = l.iter().map(|_| self.next(SELS)).unzip();
                        let (x, y) = self.b(v);
                        (Item::Block(ls, x), Item::Block(lm, y))
                    }
                    Item::At(_, v) => {
                        let (s, m) = self.next(CONDS);
                        let (x, y) = self.items(v);
                        (Item::At(s, x), Item::At(m, y))
                    }
                    Item::Keyframes(..) => unreachable!("not available inline"),
                })
                .unzip()
        }
    }
    let mut w = W(0, pick);
    let (a, b) = w.items(s);
    (a, b, w.0)
}

fn structures(max: usize, pairs: bool) -> Vec<Inl> {
    let voc = Vocab { sels: vec![vec!["s".into()], vec!["s".into(), "t".into()]], conds: vec!["@media x".into()], keyframes: false, max_depth: 4 };
    let mut out: Vec<Inl> = vec![];
    for s in sheets(max, &voc) {
        let n = place(&s, &|_| 0).2;
        let mut put = |p: &dyn Fn(usize) -> usize| {
            let (a, b, _) = place(&s, p);
            out.push(Inl { src: text(&a), m: b, mac: out.len() });
        };
        put(&|_| 0);
        for i in 0..n {
            for f in 1..5 {
                put(&|k| if k == i { f } else { 0 });
            }
            if pairs {
                for j in i + 1..n {
                    put(&|k| if k == i || k == j { 1 } else { 0 });
                    put(&|k| if k == i { 2 } else if k == j { 1 } else { 0 });
                }
            }
        }
        for f in 1..5 {
            put(&|k| k + f);
        }
    }
    out
}

/// Structures without anything special in their places.
fn deep(max: usize) -> Vec<Inl> {
    let voc = Vocab { sels: vec![vec!["s".into()]], conds: vec!["@media x".into()], keyframes: false, max_depth: 5 };
    let mut out: Vec<Inl> = vec![];
    for n in 4..=max {
        for s in sheets_exact(n, &voc) {
            let (a, b, _) = place(&s, &|k| if max == n && n > 4 { k / 2 } else { 0 });
            out.push(Inl { src: text(&a), m: b, mac: out.len() });
        }
    }
    out
}

fn names_and_exprs() -> Vec<Inl> {
    let mut out = vec![];
    let d = |k: &str, v: &str| Item::Decl(decl(k, v));
    for (n, m) in NAMES {
        out.push(Inl { src: format!("{n}: v;"), m: vec![d(m, "v")], mac: 0 });
        out.push(Inl { src: format!(".s {{ {n}: v; }}"), m: vec![Item::Block(vec![".s".into()], vec![BItem::Decl(decl(m, "v"))])], mac: 1 });
        out.push(Inl { src: format!("@media x {{ {n}: v; {n} : w; }}"), m: vec![Item::At("@media x".into(), vec![d(m, "v"), d(m, "w")])], mac: 2 });
    }
    for (e, v) in EXPRS {
        // A string literal is no different from any other expression.
        out.push(Inl { src: format!("k: ${{{e}}};"), m: vec![d("k", v)], mac: 0 });
        out.push(Inl { src: format!("k: f(${{{e}}}, ${{{e}}});"), m: vec![d("k", &format!("f({v},{v})"))], mac: 2 });
        if v.chars().all(|c| c.is_ascii_alphabetic()) {
            out.push(Inl { src: format!("${{{e}}}: v;"), m: vec![d(v, "v")], mac: 0 });
            out.push(Inl { src: format!(".${{{e}}} {{ k: v; }}"), m: vec![Item::Block(vec![format!(".{v}")], vec![BItem::Decl(decl("k", "v"))])], mac: 1 });
            out.push(Inl { src: format!("@media ${{{e}}} {{ k: v; }}"), m: vec![Item::At(format!("@media {v}"), vec![d("k", "v")])], mac: 0 });
        }
    }
    out
}

pub fn check(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let sh = |l: &Inl| l.src.clone();
    let sel_item = |i: usize, src: &str, text: &str| (format!("{src} {{ k{i}: v; }}"), Item::Block(split(text), vec![BItem::Decl(decl(&format!("k{i}"), "v"))]));
    let at_item = |at: &'static str| move |i: usize, src: &str, text: &str| (format!("@{at} {src} {{ k{i}: v; }}"), Item::At(format!("@{at} {text}"), vec![Item::Decl(decl(&format!("k{i}"), "v"))]));
    let (nv, ns, nc) = if t { (4, 4, 4) } else { (3, 3, 3) };
    let spaces = vec![
        batches("values", sequences(values(), nv, minus_ok, false, |i, s, x| (format!("k{i}: {s};"), Item::Decl(decl(&format!("k{i}"), x)))), 800, 16, sh, unit),
        batches("selectors", sequences(selectors(), ns, selector_ok, false, sel_item), 600, 12, sh, unit),
        batches("media conditions", sequences(conds(), nc, cond_ok, true, at_item("media")), 600, 12, sh, unit),
        batches("supports conditions", sequences(conds(), 2, cond_ok, true, at_item("supports")), 600, 12, sh, unit),
        batches("structures", structures(if t { 4 } else { 3 }, true), 300, 1, sh, unit),
        batches("deep structures", deep(if t { 6 } else { 5 }), 400, 1, sh, unit),
        batches("names and expressions", names_and_exprs(), 100, 1, sh, unit),
    ];
    Check {
        property: "C18",
        level: "exploration",
        rule: "every inline macro call of the listed spaces is compiled by the real compiler and run; the CSS of its sheet must consist of the tokens written, spaced by the documented rule (white space that does not change CSS meaning is ignored), in the structure written, and must be accepted by the parser".into(),
        bounds: format!("tier {tier:?}: token sequences up to length {nv} over {} value tokens, {ns} over {} selector tokens, {nc} over {} condition tokens, loosely and tightly laid out; sheets up to {} nodes with atoms at every place and pair of places", values().len(), selectors().len(), conds().len(), if t { 4 } else { 3 }),
        assumptions: vec![
            "documented limitations are outside the space: a minus sign after a word, white space as a descendant combinator before '.', ':' or '[', nested blocks, at-rules other than @media and @supports, a leading type selector with a pseudo-class".into(),
        ],
        spaces,
    }
}
