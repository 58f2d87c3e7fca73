//! The operations a behaviour can consist of, and what is observed of them.

use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
#[allow(unused_imports)]
use soupy::parser::Parser;

#[allow(unused_imports)]
use crate::flat;
use crate::{
    engine::{self, Op},
    query,
};

/// Queries shared by all records of a file.
pub struct Suite {
    pub queries: Vec<Option<&'static [Op]>>,
    pub raw: Vec<Value>,
}
impl Suite {
    pub fn new(v: &Value) -> Suite {
        let raw = v.as_array().expect("HARNESS suite").clone();
        Suite { queries: raw.iter().filter(|q| q.is_array()).map(engine::ops).collect(), raw }
    }
}

pub fn run(rec: &Value, suite: Option<&Suite>) -> Value {
    match catch_unwind(AssertUnwindSafe(|| dispatch(rec, suite))) {
        Ok(v) => v,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            assert!(!msg.starts_with("HARNESS"), "{msg}");
            json!({ "panic": msg })
        }
    }
}

fn dispatch(rec: &Value, suite: Option<&Suite>) -> Value {
    let own;
    let none = Suite { queries: vec![], raw: vec![] };
    let suite = if rec["suite"].is_array() {
        own = Suite::new(&rec["suite"]);
        &own
    } else {
        suite.unwrap_or(&none)
    };
    if !offered(rec) {
        return json!({"unavailable": true});
    }
    match rec["op"].as_str().unwrap_or("strict") {
        #[cfg(feature = "uses-strict")]
        "strict" => strict(&flat::text(&rec["src"])),
        #[cfg(feature = "uses-lenient")]
        "lenient" => {
            let src = flat::text(&rec["src"]);
            let mut v = lenient(&src);
            #[cfg(feature = "uses-strict")]
            if rec["sound"] == json!(true) {
                v["strict"] = strict(&src);
            }
            v
        }
        #[cfg(feature = "uses-lenient")]
        "mirror" => {
            let src = flat::text(&rec["src"]);
            let mut v = lenient(&src);
            v["tree"] = engine_tree(&src);
            v
        }
        #[cfg(feature = "uses-xml")]
        "xml" => xml(flat::text(&rec["src"]).as_bytes()),
        #[cfg(feature = "uses-xml")]
        "reader" => {
            let bytes: Vec<u8> = rec["bytes"].as_array().expect("HARNESS bytes").iter().map(|b| b.as_u64().unwrap() as u8).collect();
            let mut v = xml(crate::reader::Scripted::new(&bytes, &rec["plan"]));
            // delivered whole: the same, whatever it is
            v["same"] = json!(v == xml(bytes.as_slice()));
            v
        }
        "query" => query::query(rec, &suite.queries),
        "formats" => query::formats(rec, &suite.queries),
        "threads" => query::threads(rec, &suite.queries),
        "parser" => crate::construct::parser(rec),
        "constructors" => crate::construct::constructors(rec),
        "consume" => crate::consume::programs(rec),
        "giant" => crate::giant::giant(rec),
        "vast" => crate::vast::vast(rec),
        "travel" => query::travel(rec),
        "roam" => query::roam(rec),
        "access" => query::access(rec),
        "session" => query::session(rec),
        "total" => crate::total::total(rec),
        "pattern" => crate::total::pattern(rec),
        "growth" => crate::total::growth(rec),
        "filters" => query::filters(rec, &suite.raw),
        #[allow(unreachable_patterns)]
        "strict" | "lenient" | "mirror" | "xml" | "reader" => json!({"unavailable": true}),
        op => panic!("HARNESS unknown operation {op}"),
    }
}

/// Whether this build has what the record needs.
fn offered(rec: &Value) -> bool {
    let uses = |what: &str| match what {
        "html-strict" => cfg!(feature = "uses-strict"),
        "html-lenient" => cfg!(feature = "uses-lenient"),
        "regex" => cfg!(feature = "uses-regex"),
        "xml" => cfg!(feature = "uses-xml"),
        what => panic!("HARNESS unknown feature {what}"),
    };
    rec["needs"].as_array().is_none_or(|n| n.iter().all(|f| uses(f.as_str().unwrap())))
}

#[cfg(feature = "uses-strict")]
fn strict(src: &str) -> Value {
    match soupy::parser::StrictHTMLParser::parse(src) {
        Ok(nodes) => json!({"ok": true, "doc": flat::to_json(&flat::html(&nodes))}),
        Err(_) => json!({"ok": false, "doc": []}),
    }
}

#[cfg(feature = "uses-xml")]
fn xml<R: std::io::Read>(src: R) -> Value {
    match soupy::parser::XMLParser::parse(src) {
        Ok(nodes) => json!({"ok": true, "doc": flat::xml(&nodes)}),
        Err(_) => json!({"ok": false, "doc": []}),
    }
}

#[cfg(feature = "uses-lenient")]
fn lenient(src: &str) -> Value {
    let Ok(nodes) = soupy::parser::LenientHTMLParser::parse(src);
    json!({"ok": true, "doc": flat::to_json(&flat::html(&nodes))})
}

/// The tree the HTML engine itself builds.
#[cfg(feature = "uses-lenient")]
fn engine_tree(src: &str) -> Value {
    use scraper::Node as N;
    let html = scraper::Html::parse_document(src);
    let mut out = vec![];
    let mut stack: Vec<(usize, ego_tree::NodeRef<N>)> = html.tree.root().children().rev().map(|n| (0, n)).collect();
    while let Some((d, n)) = stack.pop() {
        let mut v = json!({"d": d, "k": "", "ns": "", "n": [], "a": [], "t": []});
        match n.value() {
            N::Document | N::Fragment => v["k"] = json!("fragment"),
            N::ProcessingInstruction(_) => v["k"] = json!("pi"),
            N::Doctype(x) => (v["k"], v["t"]) = (json!("doctype"), flat::cps(&x.name)),
            N::Comment(x) => (v["k"], v["t"]) = (json!("comment"), flat::cps(&x.comment)),
            N::Text(x) => (v["k"], v["t"]) = (json!("text"), flat::cps(&x.text)),
            N::Element(e) => {
                (v["k"], v["n"]) = (json!("el"), flat::cps(&e.name.local));
                v["ns"] = json!(if &*e.name.ns == "http://www.w3.org/1999/xhtml" { "h" } else { "f" });
                v["a"] = e.attrs.iter().map(|(q, t)| json!([flat::cps(&q.ns), flat::cps(&q.local), flat::cps(t)])).collect();
            }
        }
        out.push(v);
        stack.extend(n.children().rev().map(|c| (d + 1, c)));
    }
    Value::Array(out)
}
