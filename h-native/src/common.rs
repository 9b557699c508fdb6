use mck::css::{flatten, show, Flat};
use stylist::ast::{Sheet, ToStyleStr};

pub fn render(s: &Sheet, class: Option<&str>) -> String {
    s.to_style_str(class)
}

/// All string leaves of a sheet's serialized form, in order.
pub fn leaves(s: &Sheet) -> Vec<String> {
    fn walk(v: &serde_json::Value, out: &mut Vec<String>) {
        match v {
            serde_json::Value::String(s) => out.push(s.clone()),
            serde_json::Value::Array(a) => a.iter().for_each(|m| walk(m, out)),
            serde_json::Value::Object(o) => o.values().for_each(|m| walk(m, out)),
            _ => {}
        }
    }
    let mut out = vec![];
    walk(&serde_json::to_value(s).expect("sheet serializes"), &mut out);
    out
}

/// Compares generated CSS with the expected meaning.
pub fn compare(css: &str, want: &[Flat]) -> Result<(), String> {
    let got = flatten(css).map_err(|e| format!("generated CSS is malformed: {e}\n{css}"))?;
    if got == want {
        return Ok(());
    }
    Err(format!(
        "generated CSS:\n{css}\nmeans:\n{}\nexpected:\n{}",
        show(&got),
        show(want)
    ))
}
