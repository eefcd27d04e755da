//! Flattening of serialised items into (path, leaf) lists, for field-by-field comparison.
use serde_json::Value;
use std::collections::BTreeMap;

/// Collects the leaves of `v`; array positions become `[i]`, and array lengths are leaves of their own.
pub fn leaves(v: &Value, path: &mut String, out: &mut Vec<(String, String)>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                if k == "offset" && m.contains_key("code") {
                    continue; // where a code pair came from is not part of its value
                }
                let n = path.len();
                path.push('.');
                path.push_str(k);
                leaves(x, path, out);
                path.truncate(n);
            }
        }
        Value::Array(a) => {
            let n = path.len();
            path.push_str(".#");
            out.push((path.clone(), a.len().to_string()));
            path.truncate(n);
            for (i, x) in a.iter().enumerate() {
                path.push_str(&format!("[{}]", i));
                leaves(x, path, out);
                path.truncate(n);
            }
        }
        Value::Number(x) => {
            let s = match x.as_f64() {
                Some(f) if x.is_f64() => format!("{:?}", if f == 0.0 { 0.0 } else { f }),
                _ => x.to_string(),
            };
            out.push((path.clone(), s))
        }
        Value::String(s) => out.push((path.clone(), format!("{:?}", s))),
        o => out.push((path.clone(), o.to_string())),
    }
}
pub fn leaf_map(v: &Value) -> BTreeMap<String, String> {
    let mut out = vec![];
    leaves(v, &mut String::new(), &mut out);
    out.into_iter().collect()
}
/// The path with array positions erased.
pub fn generic(path: &str) -> String {
    let mut r = String::new();
    let mut skip = false;
    for c in path.chars() {
        match c {
            '[' => {
                skip = true;
                r.push('[');
            }
            ']' => {
                skip = false;
                r.push(']');
            }
            _ if skip => (),
            c => r.push(c),
        }
    }
    r
}
/// First differences between two values, as text.
pub fn diff(a: &Value, b: &Value, max: usize) -> Vec<String> {
    let (x, y) = (leaf_map(a), leaf_map(b));
    let mut out = vec![];
    for (k, v) in &x {
        match y.get(k) {
            Some(w) if w == v => (),
            Some(w) => out.push(format!("{}: {} -> {}", k, v, w)),
            None => out.push(format!("{}: {} -> (absent)", k, v)),
        }
        if out.len() >= max {
            return out;
        }
    }
    for (k, w) in &y {
        if !x.contains_key(k) {
            out.push(format!("{}: (absent) -> {}", k, w));
            if out.len() >= max {
                return out;
            }
        }
    }
    out
}
