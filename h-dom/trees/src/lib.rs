//! Component trees described by data, rendered on the server (native) and in the browser (wasm).
use std::rc::Rc;

use serde::{Deserialize, Serialize};
use stylist::manager::StyleManager;
use stylist::yew::{styled_component, use_media_query, use_prepared_media_query, use_style, Global, ManagerProvider};
use stylist::{css, StyleSource};
use yew::prelude::*;

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum N {
    /// A plain element.
    El(Vec<N>),
    /// An element of a styled component: `css!` variant, children.
    Css(usize, Vec<N>),
    /// `use_style` with a string.
    Use(usize, Vec<N>),
    /// The `use_style!` macro.
    UseM(usize, Vec<N>),
    /// `css!` outside of a styled component.
    Plain(usize, Vec<N>),
    /// The global style component, given a string (even variants) or a `css!` value.
    Glob(usize),
    /// A styled component that renders the global style component.
    CssGlob(usize),
    /// A manager provider.
    Mgr(usize, Vec<N>),
    /// Other ways of writing components that use styles, see `FORMS`.
    Form(usize, Vec<N>),
    /// Other values given to the global style component (variant 1).
    GlobForm(usize),
    /// Media queries.
    Mq(usize),
    Pmq(usize, bool),
    Nothing,
}

/// The CSS of the variants, as given to the parser.
pub const CSS: &[&str] = &[
    "color: red;",
    "margin: 1px; &:hover { color: blue; }",
    "@media (min-width: 3px) { padding: 4px; } .x { top: 0; }",
    "",
    "@media print { @supports (a: b) { color: red; &:focus { top: 1px; } } }",
    "@keyframes spin { from { left: 0; } to { left: 1px; } } animation: spin 1s;",
    "/* nothing */ .x { } & > .y, &.z { content: \"}{&;\"; } @supports (g: h) { .w { top: 0; } }",
];
pub const QUERIES: &[&str] = &["(min-width: 500px)", "(max-width: 799px)", "(min-width: 500px) and (max-width: 799px)"];

fn sources(i: usize) -> StyleSource {
    match i {
        0 => css!("color: red;"),
        1 => css!(margin: 1px; &:hover { color: blue; }),
        2 => css!("@media (min-width: ${w}) { padding: 4px; } .x { top: 0; }", w = "3px"),
        3 => css!(""),
        4 => css!(@media print { @supports (a: b) { color: red; &:focus { top: 1px; } } }),
        5 => css!("@keyframes spin { from { left: 0; } to { left: 1px; } } animation: spin 1s;"),
        6 => css!("/* nothing */ .x { } & > .y, &.z { content: \"${a}&;\"; } @supports (g: h) { .w { top: 0; } }", a = "}{"),
        _ => unreachable!(),
    }
}

#[derive(Clone, PartialEq, Properties)]
pub struct P {
    pub i: usize,
    pub path: AttrValue,
    #[prop_or_default]
    pub fallback: bool,
    #[prop_or_default]
    pub children: Children,
}

#[styled_component]
fn CssC(p: &P) -> Html {
    let c = match p.i {
        0 => css!("color: red;"),
        1 => css!(margin: 1px; &:hover { color: blue; }),
        2 => {
            let w = "3px";
            css!("@media (min-width: ${w}) { padding: 4px; } .x { top: 0; }", w = w)
        }
        3 => css!(),
        4 => css!("@media print { @supports (a: b) { color: red; &:focus { top: 1px; } } }"),
        5 => css!("@keyframes spin { from { left: 0; } to { left: ${n}px; } } animation: spin 1s;", n = 1),
        6 => css!("/* nothing */ .x { } & > .y, &.z { content: \"}{&;\"; } @supports (g: h) { .w { top: 0; } }"),
        _ => unreachable!(),
    };
    html! { <div id={p.path.clone()} class={c}>{ p.children.clone() }</div> }
}

#[component]
fn UseC(p: &P) -> Html {
    let s = use_style(CSS[p.i]);
    html! { <div id={p.path.clone()} class={s}>{ p.children.clone() }</div> }
}

#[component]
fn UseM0(p: &P) -> Html {
    let s = stylist::yew::use_style!("color: red;");
    html! { <div id={p.path.clone()} class={s}>{ p.children.clone() }</div> }
}
#[component]
fn UseM1(p: &P) -> Html {
    let s = stylist::yew::use_style!(margin: 1px; &:hover { color: ${"blue"}; });
    html! { <div id={p.path.clone()} class={s.get_class_name().to_string()}>{ p.children.clone() }</div> }
}
#[component]
fn UseM2(p: &P) -> Html {
    let s = stylist::yew::use_style!("@media (min-width: 3px) { padding: 4px; } .x { top: 0; }");
    html! { <div id={p.path.clone()} class={classes!("own", s)}>{ p.children.clone() }</div> }
}

#[component]
fn PlainC(p: &P) -> Html {
    html! { <div id={p.path.clone()} class={sources(p.i)}>{ p.children.clone() }</div> }
}

#[styled_component]
fn CssGlobC(p: &P) -> Html {
    let c = match p.i {
        0 => css!("color: red;"),
        1 => css!(margin: 1px; &:hover { color: blue; }),
        _ => css!("@media (min-width: 3px) { padding: 4px; } .x { top: 0; }"),
    };
    html! { <Global css={c} /> }
}

/// What each form renders: (suffix of the element's id, variants of its styles).
pub const FORMS: &[&[(&str, &[usize])]] = &[
    &[("", &[0, 1])],
    &[("", &[2]), ("x", &[0]), ("y", &[0]), ("z", &[2])],
    &[("", &[0])],
    &[("", &[1])],
    &[("", &[0])],
    &[("", &[0]), ("x", &[1])],
    &[("", &[0])],
    &[("", &[0, 1, 2])],
    &[("", &[0])],
    &[("", &[2]), ("x", &[2])],
];

/// Two styles and a class of its own on one element.
#[styled_component]
fn Form0(p: &P) -> Html {
    html! { <div id={p.path.clone()} class={classes!("own", css!("color: red;"), css!(margin: 1px; &:hover { color: blue; }))}>{ p.children.clone() }</div> }
}

/// Closures, loops and several elements.
#[styled_component]
fn Form1(p: &P) -> Html {
    let of = |w: usize| css!("@media (min-width: ${w}px) { padding: 4px; } .x { top: 0; }", w = w);
    let more = ["x", "y"].iter().map(|k| html! { <i id={format!("{}{k}", p.path)} class={css!(color: ${"red"};)} /> }).collect::<Html>();
    html! {
        <>
            <div id={p.path.clone()} class={of(3)}>{ p.children.clone() }</div>
            { more }
            if p.i == 0 {
                <i id={format!("{}z", p.path)} class={of(1 + 2)} />
            }
        </>
    }
}

/// A component named by the attribute.
#[styled_component(Form2)]
fn form2_(p: &P) -> Html {
    html! { <div id={p.path.clone()} class={css!("color: red;")}>{ p.children.clone() }</div> }
}

/// Generic components, documentation and other attributes.
#[allow(non_snake_case)]
#[styled_component]
fn Form3<T>(p: &P) -> Html
where
    T: Default + std::fmt::Display + 'static,
{
    let n = T::default();
    html! { <div id={p.path.clone()} class={css!(margin: ${n}1px; &:hover { color: blue; })}>{ p.children.clone() }</div> }
}

/// `css!` values made by one component and used by another, below another provider.
#[derive(Clone, PartialEq, Properties)]
pub struct Q {
    css: StyleSource,
    path: AttrValue,
    #[prop_or_default]
    children: Children,
}
#[component]
fn Takes(q: &Q) -> Html {
    html! { <div id={q.path.clone()} class={q.css.clone()}>{ q.children.clone() }</div> }
}
#[styled_component]
fn Form4(p: &P) -> Html {
    let c = css!("color: red;");
    html! { <Takes css={c} path={p.path.clone()}>{ p.children.clone() }</Takes> }
}

/// Hooks with other kinds of values.
#[component]
fn Form5(p: &P) -> Html {
    let s = use_style("color: red;".to_string());
    let t = use_style(css!(margin: 1px; &:hover { color: blue; }));
    let again = use_style(std::borrow::Cow::Borrowed("color: red;"));
    assert_eq!(s.get_class_name(), again.get_class_name());
    html! {
        <>
            <div id={p.path.clone()} class={s.clone()}>{ p.children.clone() }</div>
            <i id={format!("{}x", p.path)} class={Classes::from(t)} />
        </>
    }
}

/// Hooks with sheets.
#[component]
fn Form6(p: &P) -> Html {
    let s = use_style(stylist::ast::sheet!("color: red;"));
    let t = use_style("color: red;".parse::<stylist::ast::Sheet>().unwrap());
    assert_eq!(s.get_class_name(), t.get_class_name());
    html! { <div id={p.path.clone()} class={classes!(s, "own")}>{ p.children.clone() }</div> }
}

/// A component that uses `css!`, the hook and the hook's macro.
#[styled_component]
fn Form7(p: &P) -> Html {
    let a = css!("color: red;");
    let b = use_style("margin: 1px; &:hover { color: blue; }");
    let c = stylist::yew::use_style!("@media (min-width: 3px) { padding: 4px; } .x { top: 0; }");
    html! { <div id={p.path.clone()} class={classes!(vec![Classes::from(a), b.into()], c)}>{ p.children.clone() }</div> }
}

/// The injection alone.
#[stylist::yew::styled_component_impl]
#[component]
fn Form8(p: &P) -> Html {
    html! { <div id={p.path.clone()} class={css!("color: red;")}>{ p.children.clone() }</div> }
}

/// State of its own: the style is rendered again after the first effect.
#[styled_component]
fn Form9(p: &P) -> Html {
    let n = use_state(|| 0);
    {
        let n = n.clone();
        use_effect_with((), move |_| n.set(3));
    }
    let w = 3;
    html! {
        <>
            <div id={p.path.clone()} class={css!("@media (min-width: ${w}px) { padding: 4px; } .x { top: 0; }", w = w)}>{ p.children.clone() }</div>
            <i id={format!("{}x", p.path)} class={css!("@media (min-width: ${w}px) { padding: 4px; } .x { top: 0; }", w = w)}>{ *n }</i>
        </>
    }
}

fn glob_form(k: usize) -> Html {
    match k {
        0 => html! { <Global css={CSS[1].to_string()} /> },
        1 => html! { <Global css={std::borrow::Cow::Borrowed(CSS[1])} /> },
        2 => html! { <Global css={CSS[1].parse::<stylist::ast::Sheet>().unwrap()} /> },
        _ => html! { <Global css={stylist::ast::sheet!("margin: 1px; &:hover { color: blue; }")} /> },
    }
}
pub const GLOB_FORMS: usize = 4;

thread_local! {
    /// The values the media hooks returned, in order.
    pub static VALUES: std::cell::RefCell<Vec<bool>> = const { std::cell::RefCell::new(vec![]) };
}

#[component]
fn MqC(p: &P) -> Html {
    let v = use_media_query(QUERIES[p.i]);
    VALUES.with(|l| l.borrow_mut().push(v));
    html! { <b id={p.path.clone()}>{ v }</b> }
}
#[component]
fn PmqC(p: &P) -> HtmlResult {
    let v = use_prepared_media_query(QUERIES[p.i], p.fallback)?;
    VALUES.with(|l| l.borrow_mut().push(v));
    Ok(html! { <b id={p.path.clone()}>{ v }</b> })
}

/// Displays nothing.
#[derive(Default, PartialEq, Clone)]
pub struct Empty;
impl std::fmt::Display for Empty {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}

pub fn view(n: &N, path: String, mgrs: &Rc<Vec<StyleManager>>) -> Html {
    let kids = |v: &[N]| -> Vec<Html> { v.iter().enumerate().map(|(k, c)| view(c, format!("{path}{k}"), mgrs)).collect() };
    let p: AttrValue = path.clone().into();
    match n {
        N::El(v) => html! { <p id={p}>{ for kids(v) }</p> },
        N::Css(i, v) => html! { <CssC i={*i} path={p}>{ kids(v) }</CssC> },
        N::Use(i, v) => html! { <UseC i={*i} path={p}>{ kids(v) }</UseC> },
        N::UseM(0, v) => html! { <UseM0 i=0 path={p}>{ kids(v) }</UseM0> },
        N::UseM(1, v) => html! { <UseM1 i=1 path={p}>{ kids(v) }</UseM1> },
        N::UseM(_, v) => html! { <UseM2 i=2 path={p}>{ kids(v) }</UseM2> },
        N::Plain(i, v) => html! { <PlainC i={*i} path={p}>{ kids(v) }</PlainC> },
        N::Glob(i) if i % 2 == 0 => html! { <Global css={CSS[*i]} /> },
        N::Glob(i) => html! { <Global css={sources(*i)} /> },
        N::CssGlob(i) => html! { <CssGlobC i={*i} path={p} /> },
        N::Form(k, v) => {
            let v = kids(v);
            match k {
                0 => html! { <Form0 i=0 path={p}>{ v }</Form0> },
                1 => html! { <Form1 i=0 path={p}>{ v }</Form1> },
                2 => html! { <Form2 i=0 path={p}>{ v }</Form2> },
                3 => html! { <Form3<Empty> i=0 path={p}>{ v }</Form3<Empty>> },
                4 => html! { <Form4 i=0 path={p}>{ v }</Form4> },
                5 => html! { <Form5 i=0 path={p}>{ v }</Form5> },
                6 => html! { <Form6 i=0 path={p}>{ v }</Form6> },
                7 => html! { <Form7 i=0 path={p}>{ v }</Form7> },
                8 => html! { <Form8 i=0 path={p}>{ v }</Form8> },
                _ => html! { <Form9 i=0 path={p}>{ v }</Form9> },
            }
        }
        N::GlobForm(k) => glob_form(*k),
        N::Mgr(m, v) => html! { <ManagerProvider manager={mgrs[*m].clone()}>{ kids(v) }</ManagerProvider> },
        N::Mq(i) => html! { <MqC i={*i} path={p} /> },
        N::Pmq(i, f) => html! { <Suspense><PmqC i={*i} path={p} fallback={*f} /></Suspense> },
        N::Nothing => Html::default(),
    }
}

#[derive(Clone, PartialEq, Properties)]
pub struct AppProps {
    pub forest: Rc<Vec<N>>,
    pub mgrs: Rc<Vec<StyleManager>>,
}

#[component]
pub fn App(p: &AppProps) -> Html {
    html! { <Suspense>{ for p.forest.iter().enumerate().map(|(k, n)| view(n, format!("n{k}"), &p.mgrs)) }</Suspense> }
}
