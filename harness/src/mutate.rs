//! Systematic mutations of JSON values and texts: every node, every operator.
use serde_json::{json, Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    K(String),
    I(usize),
}
pub type Path = Vec<El>;

pub fn show(p: &[El]) -> String {
    p.iter()
        .map(|e| match e {
            El::K(k) => format!(".{k}"),
            El::I(i) => format!("[{i}]"),
        })
        .collect()
}

/// Paths of all nodes, root first.
pub fn nodes(v: &Value) -> Vec<Path> {
    fn go(v: &Value, at: &mut Path, out: &mut Vec<Path>) {
        out.push(at.clone());
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    at.push(El::K(k.clone()));
                    go(x, at, out);
                    at.pop();
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    at.push(El::I(i));
                    go(x, at, out);
                    at.pop();
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out);
    out
}
pub fn get<'a>(v: &'a Value, p: &[El]) -> &'a Value {
    p.iter().fold(v, |v, e| match e {
        El::K(k) => &v[k.as_str()],
        El::I(i) => &v[*i],
    })
}
pub fn get_mut<'a>(v: &'a mut Value, p: &[El]) -> &'a mut Value {
    p.iter().fold(v, |v, e| match e {
        El::K(k) => &mut v[k.as_str()],
        El::I(i) => &mut v[*i],
    })
}
pub fn with(v: &Value, p: &[El], new: Value) -> Value {
    let mut w = v.clone();
    *get_mut(&mut w, p) = new;
    w
}
pub fn without(v: &Value, p: &[El]) -> Value {
    let mut w = v.clone();
    let (last, up) = p.split_last().unwrap();
    match (get_mut(&mut w, up), last) {
        (Value::Object(m), El::K(k)) => {
            m.remove(k);
        }
        (Value::Array(a), El::I(i)) => {
            a.remove(*i);
        }
        _ => {}
    }
    w
}

/// Values of every JSON kind, with awkward members of each kind.
pub fn pool() -> Vec<Value> {
    let mut deep = json!(1);
    for i in 0..60 {
        deep = if i % 2 == 0 { json!([deep]) } else { json!({ "a": deep }) };
    }
    vec![
        Value::Null,
        json!(true),
        json!(0),
        json!(-1),
        json!(1.5),
        json!(u64::MAX),
        json!(i64::MIN),
        json!(1e300),
        json!(""),
        json!("x"),
        json!("#"),
        json!("did:x:y"),
        json!("did:x:y#z"),
        json!("\u{0}\u{1F600}é\"\\"),
        json!("A".repeat(5000)),
        json!([]),
        json!([[]]),
        json!([null, null]),
        json!({}),
        json!({"": {"": ""}}),
        deep,
    ]
}

/// All single mutations of `v`.
pub fn mutants(v: &Value, pool: &[Value]) -> Vec<(String, Value)> {
    let mut out = vec![];
    for p in nodes(v) {
        let here = get(v, &p);
        let name = show(&p);
        for (i, n) in pool.iter().enumerate() {
            if n != here {
                out.push((format!("{name}={i}"), with(v, &p, n.clone())));
            }
        }
        if !p.is_empty() {
            out.push((format!("{name}-remove"), without(v, &p)));
        }
        out.push((format!("{name}-array"), with(v, &p, json!([here]))));
        out.push((format!("{name}-object"), with(v, &p, json!({ "x": here }))));
        match here {
            Value::String(s) => {
                let mut alts = vec![format!("{s}x"), format!("{s} "), format!(" {s}"), format!("{s}\u{0}"), format!("{s}{s}"), s.to_uppercase(), s.replace(':', ""), s.replace('#', ""), format!("#{s}"), format!("{s}#"), format!("é{s}"), s.replace('-', "+").replace('_', "/"), format!("{s}==")];
                if !s.is_empty() {
                    let n = s.chars().count();
                    alts.push(s.chars().take(n - 1).collect());
                    alts.push(s.chars().skip(1).collect());
                    alts.push(s.chars().take(n / 2).collect());
                }
                for (i, a) in alts.into_iter().enumerate() {
                    if a != *s {
                        out.push((format!("{name}~{i}"), with(v, &p, json!(a))));
                    }
                }
            }
            Value::Number(n) => {
                for (i, a) in [json!(n.to_string()), json!(n.as_f64().unwrap_or(0.0) + 0.5), json!(n.as_u64().unwrap_or(0).wrapping_add(1))].into_iter().enumerate() {
                    out.push((format!("{name}~{i}"), with(v, &p, a)));
                }
            }
            Value::Array(a) => {
                let mut r = a.clone();
                r.reverse();
                out.push((format!("{name}-reverse"), with(v, &p, json!(r))));
                for i in 0..a.len() {
                    let mut d = a.clone();
                    d.insert(i, a[i].clone());
                    out.push((format!("{name}-dup{i}"), with(v, &p, json!(d))));
                }
                for x in [json!(null), json!(""), json!({}), json!([])] {
                    let mut d = a.clone();
                    d.push(x);
                    out.push((format!("{name}-push{}", d.last().unwrap()), with(v, &p, json!(d))));
                }
                out.push((format!("{name}-many"), with(v, &p, json!(a.iter().cycle().take(a.len() * 8).collect::<Vec<_>>()))));
            }
            Value::Object(m) => {
                for (i, k) in m.keys().enumerate() {
                    for (j, nk) in [k.to_uppercase(), String::new(), format!("{k} ")].into_iter().enumerate() {
                        if nk == *k {
                            continue;
                        }
                        let mut d = m.clone();
                        let x = d.remove(k).unwrap();
                        d.insert(nk, x);
                        out.push((format!("{name}-rename{i}.{j}"), with(v, &p, json!(d))));
                    }
                    // two members exchange their values
                    for k2 in m.keys().skip(i + 1) {
                        let mut d = m.clone();
                        let (a, b) = (m[k].clone(), m[k2].clone());
                        d.insert(k.clone(), b);
                        d.insert(k2.clone(), a);
                        out.push((format!("{name}-swap-{k}-{k2}"), with(v, &p, json!(d))));
                    }
                }
                let mut d = m.clone();
                d.insert("unknown".into(), json!({"a": [1, null]}));
                out.push((format!("{name}-unknown"), with(v, &p, json!(d))));
                // the members as a list, in order
                out.push((format!("{name}-values"), with(v, &p, json!(m.values().collect::<Vec<_>>()))));
            }
            _ => {}
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Plain,
    /// the member at the path is written twice
    Dup,
    /// the string at the path is written with \u escapes
    Escape,
    /// the name of the member at the path is written with \u escapes
    EscapeName,
    /// white space around every token of the node at the path
    Space,
    /// the members of the object at the path in reverse order
    Reverse,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    let mut b = [0u16; 2];
    for c in s.chars() {
        for u in c.encode_utf16(&mut b) {
            o.push_str(&format!("\\u{u:04x}"));
        }
    }
    o + "\""
}
fn lit(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// `v` as text, with `style` applied at `at`.
pub fn render(v: &Value, at: &[El], style: Style) -> String {
    fn obj(m: &Map<String, Value>, at: Option<&[El]>, style: Style) -> String {
        let here = at.map_or(false, |a| a.is_empty());
        let sp = if here && style == Style::Space { " \t\r\n" } else { "" };
        let mut parts: Vec<String> = vec![];
        for (k, x) in m {
            let sub = match at {
                Some([El::K(n), rest @ ..]) if n == k => Some(rest),
                _ => None,
            };
            let hit = sub.map_or(false, |s| s.is_empty());
            let name = if hit && style == Style::EscapeName { esc(k) } else { lit(k) };
            let t = go(x, sub, style);
            if hit && style == Style::Dup {
                parts.push(format!("{name}:{t}"));
            }
            parts.push(format!("{sp}{name}{sp}:{sp}{t}{sp}"));
        }
        if here && style == Style::Reverse {
            parts.reverse();
        }
        format!("{sp}{{{}}}{sp}", parts.join(","))
    }
    fn go(v: &Value, at: Option<&[El]>, style: Style) -> String {
        let here = at.map_or(false, |a| a.is_empty());
        let sp = if here && style == Style::Space { " \t\r\n" } else { "" };
        match v {
            Value::Object(m) => obj(m, at, style),
            Value::Array(a) => {
                let parts: Vec<String> = a
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let sub = match at {
                            Some([El::I(n), rest @ ..]) if *n == i => Some(rest),
                            _ => None,
                        };
                        format!("{sp}{}{sp}", go(x, sub, style))
                    })
                    .collect();
                format!("{sp}[{}]{sp}", parts.join(","))
            }
            Value::String(s) if here && style == Style::Escape => esc(s),
            x => format!("{sp}{x}{sp}"),
        }
    }
    go(v, Some(at), style)
}

/// Single-position corruptions of a text: cuts, drops, substitutions, insertions, swaps.
pub fn texts(s: &str, alphabet: &[char], step: usize) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![String::new(), " ".into(), format!("{s}{s}"), format!("{s}x"), format!("{s}\0"), format!("\u{feff}{s}"), format!("[{s}]"), format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))];
    let mut i = 0;
    while i < c.len() {
        v.push(c[..i].iter().collect());
        v.push(c[i..].iter().collect());
        let mut d = c.clone();
        d.remove(i);
        v.push(d.iter().collect());
        for x in alphabet {
            if c[i] != *x {
                let mut d = c.clone();
                d[i] = *x;
                v.push(d.iter().collect());
            }
            let mut d = c.clone();
            d.insert(i, *x);
            v.push(d.iter().collect());
        }
        if i + 1 < c.len() && c[i] != c[i + 1] {
            let mut d = c.clone();
            d.swap(i, i + 1);
            v.push(d.iter().collect());
        }
        i += step;
    }
    v
}
