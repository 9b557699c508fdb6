//! Runs commands against the browser build of stylist.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use serde_json::{json, Value};
use stylist::manager::{StyleData, StyleManager};
use stylist::{GlobalStyle, Style};
use trees::{App, AppProps};
use wasm_bindgen::prelude::*;
use yew::AppHandle;

#[wasm_bindgen]
extern "C" {
    fn h_container(i: u32) -> web_sys::Node;
    fn h_root() -> web_sys::Element;
    fn h_panic(m: &str);
    fn h_result(m: &str);
}

#[derive(Clone)]
enum Handle {
    Scoped(Style),
    Global(GlobalStyle),
}

#[derive(Default)]
struct State {
    mgrs: BTreeMap<u64, StyleManager>,
    handles: BTreeMap<u64, Handle>,
    app: Option<AppHandle<App>>,
}

thread_local! {
    static S: RefCell<State> = RefCell::default();
}

#[no_mangle]
pub extern "C" fn start() {
    yew::set_custom_panic_hook(Box::new(|i| h_panic(&i.to_string())));
}

#[no_mangle]
pub unsafe extern "C" fn cmd(p: *mut u8, n: usize) {
    let v = Vec::from_raw_parts(p, n, n);
    let c: Value = serde_json::from_slice(&v).expect("json");
    drop(v);
    let r = S.with(|s| run(&mut s.borrow_mut(), &c));
    h_result(&r.to_string());
}

fn describe(h: &Handle) -> Value {
    match h {
        Handle::Scoped(s) => json!({"ok": s.get_class_name(), "css": s.get_style_str()}),
        Handle::Global(g) => json!({"ok": null, "css": g.get_style_str()}),
    }
}

fn err(e: stylist::Error) -> Value {
    let d = format!("{e:?}");
    let kind = d.split('(').next().unwrap_or("").to_lowercase();
    json!({"err": kind, "text": e.to_string()})
}

fn run(s: &mut State, c: &Value) -> Value {
    let op = c["op"].as_str().expect("op");
    let u = |k: &str| c[k].as_u64().unwrap_or_else(|| panic!("field {k}"));
    match op {
        "mgr" => {
            let mut b = StyleManager::builder();
            if let Some(p) = c["prefix"].as_str() {
                b = b.prefix(p.to_string().into());
            }
            if let Some(i) = c["container"].as_u64() {
                b = b.container(h_container(i as u32));
            }
            if let Some(a) = c["append"].as_bool() {
                b = b.append(a);
            }
            match b.build() {
                Ok(m) => {
                    s.mgrs.insert(u("slot"), m);
                    json!({"ok": null})
                }
                Err(e) => err(e),
            }
        }
        // A manager from a sequence of builder calls; answers what it says of itself.
        "build" => {
            let mut b = StyleManager::builder();
            for call in c["calls"].as_array().expect("calls") {
                b = match call[0].as_str().expect("call") {
                    "prefix" => b.prefix(call[1].as_str().expect("prefix").to_string().into()),
                    "container" => b.container(h_container(call[1].as_u64().expect("container") as u32)),
                    _ => b.append(call[1].as_bool().expect("append")),
                };
            }
            match b.build() {
                Ok(m) => {
                    let container = m.container().map(|have| {
                        (0..c["containers"].as_u64().unwrap_or(0))
                            .find(|i| h_container(*i as u32) == have)
                            .map(|i| i.to_string())
                            .unwrap_or_else(|| "other".into())
                    });
                    let d = json!({"ok": {"prefix": m.prefix(), "container": container}});
                    s.mgrs.insert(u("slot"), m);
                    d
                }
                Err(e) => err(e),
            }
        }
        // Another name of a manager.
        "copymgr" => {
            let m = if c["ref"].as_bool() == Some(true) { StyleManager::from(&s.mgrs[&u("from")]) } else { s.mgrs[&u("from")].clone() };
            s.mgrs.insert(u("slot"), m);
            json!({"ok": null})
        }
        "defmgr" => {
            s.mgrs.insert(u("slot"), StyleManager::default());
            json!({"ok": null})
        }
        "samemgr" => json!({"ok": s.mgrs[&u("a")] == s.mgrs[&u("b")]}),
        "dropmgr" => {
            s.mgrs.remove(&u("slot"));
            json!({"ok": null})
        }
        "new" => {
            let css = c["css"].as_str().expect("css").to_string();
            let prefix = c["prefix"].as_str().map(|p| p.to_string());
            let mgr = c["mgr"].as_u64().map(|m| s.mgrs[&m].clone());
            let r = if c["global"].as_bool() == Some(true) {
                match mgr {
                    Some(m) => GlobalStyle::new_with_manager(css, m),
                    None => GlobalStyle::new(css),
                }
                .map(Handle::Global)
            } else {
                match (mgr, prefix) {
                    (Some(m), None) => Style::new_with_manager(css, m),
                    (Some(m), Some(p)) => Style::create_with_manager(p, css, m),
                    (None, None) => Style::new(css),
                    (None, Some(p)) => Style::create(p, css),
                }
                .map(Handle::Scoped)
            };
            match r {
                Ok(h) => {
                    let d = describe(&h);
                    // The replaced handle, if any, is dropped after the new one exists.
                    let old = s.handles.insert(u("h"), h);
                    drop(old);
                    d
                }
                Err(e) => err(e),
            }
        }
        "clone" => {
            let h = s.handles[&u("h")].clone();
            s.handles.insert(u("to"), h);
            json!({"ok": null})
        }
        "drop" => {
            s.handles.remove(&u("h"));
            json!({"ok": null})
        }
        "unreg" => {
            match &s.handles[&u("h")] {
                Handle::Scoped(x) => x.unregister(),
                Handle::Global(x) => x.unregister(),
            }
            json!({"ok": null})
        }
        "read" => describe(&s.handles[&u("h")]),
        "load" => {
            let d: StyleData = serde_json::from_value(c["data"].clone()).expect("style data");
            s.mgrs[&u("mgr")].load_style_data(&d);
            json!({"ok": null})
        }
        "render" | "hydrate" => {
            let props = app_props(s, c);
            let r = yew::Renderer::<App>::with_root_and_props(h_root(), props);
            s.app = Some(if op == "render" { r.render() } else { r.hydrate() });
            json!({"ok": null})
        }
        "update" => {
            let props = app_props(s, c);
            s.app.as_mut().expect("app").update(props);
            json!({"ok": null})
        }
        "values" => json!({"ok": trees::VALUES.with(|v| std::mem::take(&mut *v.borrow_mut()))}),
        "destroy" => {
            if let Some(a) = s.app.take() {
                a.destroy();
            }
            json!({"ok": null})
        }
        _ => panic!("unknown command {op}"),
    }
}

fn app_props(s: &State, c: &Value) -> AppProps {
    AppProps {
        forest: Rc::new(serde_json::from_value(c["forest"].clone()).expect("forest")),
        mgrs: Rc::new(s.mgrs.values().cloned().collect()),
    }
}
