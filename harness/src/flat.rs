//! Documents as flat pre-order sequences, the form the specification uses:
//! `{d: depth, k: kind, n: name, a: [[name, value]...], t: text}`, texts as code points.

use serde_json::{json, Value};

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn text(v: &Value) -> String {
    v.as_array()
        .expect("text is an array of code points")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("scalar value"))
        .collect()
}

#[derive(Clone, Debug, Default)]
pub struct Flat {
    pub d: usize,
    pub k: &'static str,
    pub n: String,
    pub a: Vec<(String, String)>,
    pub t: String,
}

pub fn attrs<'x, S: AsRef<str> + 'x>(a: impl IntoIterator<Item = (&'x S, &'x S)>) -> Vec<(String, String)> {
    a.into_iter()
        .map(|(k, v)| (k.as_ref().to_string(), v.as_ref().to_string()))
        .collect()
}

pub fn to_json(doc: &[Flat]) -> Value {
    Value::Array(
        doc.iter()
            .map(|f| {
                let mut a: Vec<&(String, String)> = f.a.iter().collect();
                a.sort();
                json!({
                    "d": f.d, "k": f.k, "n": cps(&f.n), "t": cps(&f.t),
                    "a": a.iter().map(|(k, v)| json!([cps(k), cps(v)])).collect::<Vec<_>>(),
                })
            })
            .collect(),
    )
}

#[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
pub fn html<S: AsRef<str>>(nodes: &[soupy::parser::HTMLNode<S>]) -> Vec<Flat> {
    use soupy::parser::HTMLNode as H;
    let mut out = vec![];
    // explicit stack: observing must not overflow where the library would not
    let mut stack: Vec<(usize, &H<S>)> = nodes.iter().rev().map(|n| (0, n)).collect();
    while let Some((d, n)) = stack.pop() {
        let s = |x: &S| x.as_ref().to_string();
        let mut f = Flat { d, ..Flat::default() };
        match n {
            H::Comment(t) => (f.k, f.t) = ("comment", s(t)),
            H::Doctype(t) => (f.k, f.t) = ("doctype", s(t)),
            H::Text(t) => (f.k, f.t) = ("text", s(t)),
            H::Element { name, attrs: a, children } => {
                (f.k, f.n, f.a) = ("el", s(name), attrs(a));
                stack.extend(children.iter().rev().map(|c| (d + 1, c)));
            }
            H::RawElement { name, attrs: a, content } => {
                (f.k, f.n, f.a, f.t) = ("raw", s(name), attrs(a), s(content));
            }
            H::Void { name, attrs: a } => (f.k, f.n, f.a) = ("void", s(name), attrs(a)),
        }
        out.push(f);
    }
    out
}

/// What XML nodes have in common with all others; the data of an instruction as its text.
#[cfg(feature = "uses-xml")]
pub fn xml_plain(nodes: &[soupy::parser::XMLNode]) -> Vec<Flat> {
    use soupy::parser::XMLNode as X;
    let mut out = vec![];
    let mut stack: Vec<(usize, &X)> = nodes.iter().rev().map(|n| (0, n)).collect();
    while let Some((d, n)) = stack.pop() {
        let mut f = Flat { d, ..Flat::default() };
        match n {
            X::Comment(t) => (f.k, f.t) = ("comment", t.clone()),
            X::CData(t) => (f.k, f.t) = ("cdata", t.clone()),
            X::Text(t) => (f.k, f.t) = ("text", t.clone()),
            X::ProcessingInstruction(name, data) => (f.k, f.n, f.t) = ("pi", name.clone(), data.clone().unwrap_or_default()),
            X::Element(e) => {
                (f.k, f.n, f.a) = ("el", e.name.clone(), attrs(&e.attributes));
                stack.extend(e.children.iter().rev().map(|c| (d + 1, c)));
            }
        }
        out.push(f);
    }
    out
}

#[cfg(feature = "uses-xml")]
pub fn xml(nodes: &[soupy::parser::XMLNode]) -> Vec<Value> {
    use soupy::parser::XMLNode as X;
    let opt = |o: &Option<String>| o.as_ref().map_or(json!([]), |s| json!([cps(s)]));
    let mut out = vec![];
    let mut stack: Vec<(usize, &X)> = nodes.iter().rev().map(|n| (0, n)).collect();
    while let Some((d, n)) = stack.pop() {
        let mut f = Flat { d, ..Flat::default() };
        let (mut prefix, mut ns, mut map) = (json!([]), json!([]), vec![]);
        match n {
            X::Comment(t) => (f.k, f.t) = ("comment", t.clone()),
            X::CData(t) => (f.k, f.t) = ("cdata", t.clone()),
            X::Text(t) => (f.k, f.t) = ("text", t.clone()),
            X::ProcessingInstruction(name, data) => {
                (f.k, f.n) = ("pi", name.clone());
                // absent data and empty data are kept apart
                ns = opt(data);
            }
            X::Element(e) => {
                (f.k, f.n, f.a) = ("el", e.name.clone(), attrs(&e.attributes));
                prefix = opt(&e.prefix);
                ns = opt(&e.namespace);
                if let Some(m) = &e.namespaces {
                    map = m.0.iter().map(|(k, v)| json!([cps(k), cps(v)])).collect();
                }
                stack.extend(e.children.iter().rev().map(|c| (d + 1, c)));
            }
        }
        let mut v = to_json(&[f]).as_array().unwrap()[0].clone();
        v["p"] = prefix;
        v["ns"] = ns;
        v["nm"] = Value::Array(map);
        out.push(v);
    }
    out
}
