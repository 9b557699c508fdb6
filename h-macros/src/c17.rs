//! C17: string-literal macros equal the runtime parser on the substituted text.
use crate::batch::Unit;
use crate::common::*;
use mck::css::{flatten, Flat};
use mck::driver::*;
use mck::enumr::*;
use mck::model::*;
use mck::refparse::{parse, Ref};
use stylist::ast::{Sheet as Ast, ToStyleStr};

/// A piece of a literal: its text, the arguments it uses and the text it stands for.
#[derive(Clone)]
pub struct Lit {
    src: String,
    plain: String,
    args: Vec<(String, String)>,
    mac: &'static str,
    raw: bool,
}

fn want(plain: &str) -> [Vec<Flat>; 2] {
    let s: Ast = plain.parse().unwrap_or_else(|e| panic!("reference text refused: {plain:?} {e}"));
    [Some("C"), None].map(|c| flatten(&s.to_style_str(c)).unwrap_or_else(|e| panic!("reference text {plain:?}: {e}")))
}

fn unit(g: &[Lit]) -> (Unit, [Vec<Flat>; 2]) {
    let mut src = String::new();
    let mut plain = String::new();
    let mut args: Vec<(String, String)> = vec![];
    for l in g {
        src.push_str(&l.src);
        plain.push_str(&l.plain);
        for a in &l.args {
            if !args.contains(a) {
                args.push(a.clone());
            }
        }
    }
    let a: String = args.iter().map(|(k, v)| format!(", {k} = {v}")).collect();
    let lit = if g[0].raw && !src.contains('\r') { format!("r####\"{src}\"####") } else { format!("{src:?}") };
    let body = match g[0].mac {
        "sheet" => format!("both(sheet!({lit}{a}))"),
        "sheet," => format!("both(sheet!({lit}{a},))"),
        "css" => format!("{{ let s = Style::new(css!({lit}{a})).unwrap(); let g = GlobalStyle::new(css!({lit}{a})).unwrap(); vec![s.get_style_str().replace(s.get_class_name(), \"C\"), g.get_style_str().to_string()] }}"),
        "style" => format!("{{ let s = style!({lit}{a}).unwrap(); let g = global_style!({lit}{a}).unwrap(); vec![s.get_style_str().replace(s.get_class_name(), \"C\"), g.get_style_str().to_string()] }}"),
        m => panic!("{m}"),
    };
    (Unit { body }, want(&plain))
}

/// The placeholder of an argument, with the white space that is used in the literals.
fn spelled(n: &str) -> [String; 3] {
    [format!("${{{n}}}"), format!("${{ {n} }}"), format!("${{\r\n\t{n}\n  \r\t}}")]
}

/// Substitutes values and escapes in literal text.
fn subst(src: &str, args: &[(&str, &str, &str)]) -> String {
    let mut s = src.replace("$${", "\u{1}");
    for (n, _, v) in args {
        for pat in spelled(n) {
            s = s.replace(&pat, v);
        }
    }
    assert!(!s.contains("${"), "{src}");
    s.replace('\u{1}', "${")
}

/// Name, expression, displayed value.
const ARGS: &[(&str, &str, &str)] = &[
    ("a", "\"blue\"", "blue"),
    ("b", "7", "7"),
    ("s", "String::from(\".p\")", ".p"),
    ("t", "RED", "red"),
    ("c", "\"(a: b)\"", "(a: b)"),
    ("long_Name1", "1.5", "1.5"),
];

fn make(src: String, mac: &'static str, raw: bool) -> Lit {
    let plain = subst(&src, ARGS);
    let args = ARGS
        .iter()
        .filter(|(n, _, _)| src.replace("$${", "").replace([' ', '\r', '\n', '\t'], "").contains(&format!("${{{n}")))
        .map(|(n, e, _)| (n.to_string(), e.to_string()))
        .collect();
    // A raw literal cannot have a carriage return.
    let raw = raw && !src.contains('\r');
    Lit { src, plain, args, mac, raw }
}

/// Literals whose plain text and whose shape (placeholders taken as words) are in the grammar.
fn in_grammar(l: &Lit) -> bool {
    let shape = {
        let mut s = l.src.clone();
        for (n, _, v) in ARGS {
            let w = if *n == "c" { "(z:z)".to_string() } else { format!("{}z", if v.starts_with('.') { "." } else { "" }) };
            for pat in spelled(n) {
                s = s.replace(&pat, &w);
            }
        }
        s
    };
    matches!(parse(&l.plain), Ref::Must(_)) && matches!(parse(&shape), Ref::Must(_))
}

const VAL: &[&str] = &[
    "${a}", "${b}", "red", " ", "\"x${a}y\"", "\"{\"", "\"$\"", "\"$${a}\"", "'}${ b }'", "url(${a})", "(${a} ${b})", ",", "-", "${long_Name1}", "\"\\\"${a}\"", "/", "$${a}", "${\r\n\ta\n  \r\t}",
];
const SEL: &[&str] = &[
    "${s}", "${t}", ".a", " ", ">", ",", ":not(${s})", "&", ":hover", "[h=\"${t}\"]", "[h$=\"x\"]", "[h=\"{\"]", ".x-${t}", "[h='$${t}']", "[${t}]", "${ s }",
];
const COND: &[&str] = &["${c}", "x", " and ", "(w: ${t})", "not ", ",", "(min-width: ${b}px)", "(content: \"{\")", "${t}", "(content: \"$\")", "((a: ${t}) or ${c})"];

fn texts(alpha: &'static [&'static str], hi: u32, f: impl Fn(&str, usize) -> String) -> Vec<Lit> {
    let k = alpha.len() as u64;
    (0..seq_count(k, 1, hi))
        .map(|i| {
            let t: String = seq_decode(i, k, 1, hi).into_iter().map(|d| alpha[d]).collect();
            make(f(&t, i as usize), "sheet", i % 3 == 0)
        })
        .filter(in_grammar)
        .collect()
}

/// Every place of a sheet that takes an interpolation.
pub fn places(s: &mut Sheet) -> Vec<(&mut String, char)> {
    fn decl<'a>(d: &'a mut Decl, out: &mut Vec<(&'a mut String, char)>) {
        out.push((&mut d.val, 'v'));
    }
    fn b<'a>(v: &'a mut [BItem], out: &mut Vec<(&'a mut String, char)>) {
        for i in v {
            match i {
                BItem::Decl(d) => decl(d, out),
                BItem::At(c, v) => {
                    out.push((c, 'c'));
                    b(v, out);
                }
            }
        }
    }
    fn go<'a>(v: &'a mut [Item], out: &mut Vec<(&'a mut String, char)>) {
        for i in v {
            match i {
                Item::Decl(d) => decl(d, out),
                Item::Block(s, v) => {
                    for s in s {
                        out.push((s, 's'));
                    }
                    b(v, out);
                }
                Item::At(c, v) => {
                    out.push((c, 'c'));
                    go(v, out);
                }
                Item::Keyframes(_, fs) => {
                    for f in fs {
                        for d in &mut f.decls {
                            decl(d, out);
                        }
                    }
                }
            }
        }
    }
    let mut out = vec![];
    go(s, &mut out);
    out
}

const FORMS_V: &[&str] = &["${a}", "x ${b}", "${b}px", "${a}${b}", "f(${a}, \"${b}\") ${a}", "\"$${a}\" ${ a }"];
const FORMS_S: &[&str] = &["${s}", ".x${t}", "${t}.y", "${t}${s}", "a:not(${s}) > ${t}", "& ${ t }", "[x=\"${t}\"]"];
const FORMS_C: &[&str] = &["${c}", "x and ${c}", "(w: ${b}px)", "${t} and (w: ${b}) , ${c}", "not ${ t }"];

fn programs(max: usize, voc: &Vocab, pairs: bool, forms: usize) -> Vec<Lit> {
    let mut out = vec![];
    for s in sheets(max, voc) {
        let n = places(&mut s.clone()).len();
        let mut put = |picks: &[(usize, usize)]| {
            let mut s = s.clone();
            for (k, (p, kind)) in places(&mut s).into_iter().enumerate() {
                if let Some((_, f)) = picks.iter().find(|(i, _)| *i == k) {
                    match kind {
                        'v' => *p = FORMS_V[f % FORMS_V.len()].to_string(),
                        's' => *p = FORMS_S[f % FORMS_S.len()].to_string(),
                        _ => {
                            let at = p.split(' ').next().unwrap().to_string();
                            let form = if at == "@supports" { ["${c}", "not ${c}", "(w: ${b}px)"][f % 3] } else { FORMS_C[f % FORMS_C.len()] };
                            *p = format!("{at} {form}")
                        }
                    }
                }
            }
            out.push(make(text(&s), ["sheet", "css", "sheet,", "style"][out.len() % 4], out.len() % 2 == 0));
        };
        put(&[]);
        for i in 0..n {
            for f in 0..forms {
                put(&[(i, f)]);
            }
        }
        if pairs {
            for i in 0..n {
                for j in i + 1..n {
                    for f in 0..3 {
                        put(&[(i, f), (j, f + 1)]);
                    }
                }
            }
            if n > 2 {
                for f in 0..forms {
                    put(&(0..n).map(|i| (i, i + f)).collect::<Vec<_>>());
                }
            }
        }
    }
    out
}

/// Expressions an argument can be, with what they display.
pub const EXPRS: &[(&str, &str)] = &[
    ("\"red\"", "red"), ("'c'", "c"), ("1", "1"), ("1.50", "1.5"), ("-1", "-1"), ("true", "true"), ("!0u8", "255"), ("1 + 2", "3"), ("(1 + 2) * 3", "9"),
    ("String::from(\"x\")", "x"), ("\"a\".to_string() + \"b\"", "ab"), ("{ let q = 3; q * 2 }", "6"), ("if ONE == 1 { \"y\" } else { \"n\" }", "y"),
    ("match ONE { 1 => \"o\", _ => \"p\" }", "o"), ("[1, 2].len()", "2"), ("vec![1, 2, 3].len()", "3"), ("add(1, 2)", "3"), ("RED", "red"), ("&RED", "red"), ("ONE", "1"),
    ("Pair { a: 1, b: 2 }", "p1q2"), ("&Pair { a: 1, b: 2 }", "p1q2"), ("(|a: i32, b: i32| a + b)(1, 2)", "3"), ("format!(\"{}-{}\", 1, 2)", "1-2"), ("format_args!(\"{}\", 5)", "5"), ("1 == 2", "false"),
    ("std::cmp::max::<i32>(1, 2)", "2"), ("HashMap::<u8, u8>::new().len()", "0"), ("<u8 as Into<u32>>::into(9)", "9"), ("(1, 2).1", "2"), ("Box::new(4)", "4"), ("std::rc::Rc::new(\"rc\")", "rc"),
    ("{ let Sheet = \"sh\"; Sheet }", "sh"), ("{ let From = \"fr\"; From }", "fr"), ("{ const ITEMS: i32 = 8; ITEMS }", "8"), ("{ struct Sheet; impl Sheet { fn f() -> i32 { 11 } } Sheet::f() }", "11"),
    ("Sheet::shown()", "us"), ("loop { break 12 }", "12"), ("r\"raw\"", "raw"), ("\"\\x41\"", "A"), ("concat!(\"a\", \"b\")", "ab"), ("std::borrow::Cow::Borrowed(\"cow\")", "cow"), ("ONE as u8", "1"), ("1 < 2", "true"), ("1 >> 1", "0"), ("!(1 < 2 && 2 > 1)", "false"),
];

fn arg_lists() -> Vec<Lit> {
    let mut out = vec![];
    let mut put = |args: &[(&str, &str, &str)], mac| {
        let mut src = String::new();
        let mut plain = String::new();
        for (i, (n, _, v)) in args.iter().enumerate() {
            src.push_str(&format!("k{i}:${{{n}}};"));
            plain.push_str(&format!("k{i}:{v};"));
        }
        let args = args.iter().map(|(n, e, _)| (n.to_string(), e.to_string())).collect();
        out.push(Lit { src, plain, args, mac, raw: false });
    };
    for mac in ["sheet", "sheet,"] {
        for (e, v) in EXPRS {
            put(&[("x", e, v)], mac);
            put(&[("x", e, v), ("y", "1", "1")], mac);
            put(&[("y", "\"z\"", "z"), ("x", e, v)], mac);
        }
        for (e, v) in EXPRS {
            for (f, w) in EXPRS {
                put(&[("x", e, v), ("abc", f, w)], mac);
            }
        }
        for n in ["x", "X", "a1", "a_b", "aB_c1_", "r", "Sheet", "From", "Into", "std", "self_", "RULE"] {
            put(&[(n, "\"w\"", "w"), ("q", "2", "2")], mac);
        }
    }
    out
}

pub fn check(tier: Tier) -> Check {
    let t = tier == Tier::Thorough;
    let voc = Vocab {
        sels: vec![vec![".s".into()], vec!["u:hover".into(), "&:not(.b, c)".into()]],
        conds: vec!["@media x".into(), "@supports (a: b)".into()],
        keyframes: true,
        max_depth: 3,
    };
    let lean = Vocab { sels: vec![vec![".s".into()]], conds: vec!["@media x".into()], keyframes: false, max_depth: 4 };
    let sh = |l: &Lit| format!("{:?}", l.src);
    let (n, b) = if t { (4, 600) } else { (3, 600) };
    let spaces = vec![
        batches("values", texts(VAL, n, |t, i| format!("k{i}:{t};")), b, 12, sh, unit),
        batches("selectors", texts(SEL, n, |t, i| format!("{t}{{k{i}:v;}}")), b, 12, sh, unit),
        batches("media conditions", texts(COND, n, |t, i| format!("@media {t}{{k{i}:v;}}")), b, 12, sh, unit),
        batches("supports conditions", texts(COND, 2, |t, i| format!("@supports {t}{{k{i}:v;}}")), b, 12, sh, unit),
        batches("programs", programs(if t { 3 } else { 2 }, &voc, true, if t { 3 } else { 4 }).into_iter().filter(in_grammar).collect(), 300, 1, sh, unit),
        batches("deep programs", programs(if t { 5 } else { 4 }, &lean, t, 1).into_iter().filter(in_grammar).collect(), 300, 1, sh, unit),
        batches("argument lists", arg_lists(), 400, 1, |l| format!("{:?} {:?}", l.src, l.args), unit),
    ];
    Check {
        property: "C17",
        level: "exploration",
        rule: "every macro call of the listed spaces is compiled by the real compiler and run; its sheet must mean what the runtime parser makes of the text with the values in place of the placeholders, scoped and global; a program is non-trivial when it compiles and has the right meaning, distinct by its source".into(),
        bounds: format!("tier {tier:?}: token sequences up to length {n} over {} value, {} selector and {} condition tokens; sheets up to {} (rich) and {} nodes (lean) with interpolation forms at every place and pair of places; {} argument expressions singly and in pairs", VAL.len(), SEL.len(), COND.len(), if t { 3 } else { 2 }, if t { 5 } else { 4 }, EXPRS.len()),
        assumptions: vec!["interpolated values are single components of their place (the documented security notice leaves other values to the author)".into(), "the meaning of text is the runtime parser's (checked by C01 and C02)".into()],
        spaces,
    }
}
