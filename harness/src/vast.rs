//! Searching documents in run-length form, at sizes that are never written down.

use serde_json::{json, Value};
use soupy::{Node, Pattern};

use crate::{
    back::{self, Spec},
    engine::{self, How, Searchable},
    giant,
    pat::Pat,
    query::{self, Direct},
};

fn doc(v: &Value) -> Vec<Spec> {
    giant::nodes(v)
        .into_iter()
        .map(|f| Spec { d: f.d, k: f.k.to_string(), n: f.n, a: f.a, t: f.t })
        .collect()
}

/// Positions in run-length form: in each run, places `js` of a block of `len` nodes, n times.
fn places(v: &Value) -> Vec<usize> {
    let mut out = vec![];
    for r in v.as_array().expect("HARNESS runs") {
        let u = |k: &str| r[k].as_u64().unwrap() as usize;
        let js: Vec<usize> = r["js"].as_array().unwrap().iter().map(|j| j.as_u64().unwrap() as usize).collect();
        for i in 0..u("n") {
            out.extend(js.iter().map(|j| u("at") + i * u("len") + j));
        }
    }
    out
}

fn told(got: Vec<usize>, want: &[usize]) -> Option<Value> {
    if got == want {
        return None;
    }
    let j = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Some(json!({"many": got.len(), "expected": want.len(), "at": j, "is": got.get(j), "should": want.get(j)}))
}

fn unmarked(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut skip = false;
    for c in s.chars() {
        skip = c == '\u{1}' || (skip && c.is_ascii_digit());
        if !skip {
            out.push(c);
        }
    }
    out
}

fn run<N: Searchable + Direct + back::Make>(name: &'static str, doc: &[Spec], rec: &Value) -> Option<Value>
where
    for<'p> &'p Pat: Pattern<N::Text>,
    N::Text: std::fmt::Display,
{
    let b = query::built::<N>(name, doc)?;
    let mut sub = None;
    let cap = 2 * doc.len() + 8;
    for ask in rec["asks"].as_array().expect("HARNESS asks") {
        let Some(ops) = engine::ops(&ask["ops"]) else { continue };
        let k = ask["k"].as_u64().unwrap() as usize;
        let root = || query::top(&b.soup)[0];
        let what = ask["what"].as_str().unwrap();
        let list = |it: Box<dyn Iterator<Item = usize> + '_>| it.take(cap).collect::<Vec<_>>();
        let id = |n: &N| b.pos(n);
        let items = |s: &soupy::Soup<N>, how| -> Vec<usize> { engine::query(s, ops).run(how).take(cap).map(|i| i.id()).collect() };
        let got = match what {
            "all" => items(&b.soup, How::All),
            "into" => items(&b.soup, How::Into),
            "first" => items(&b.soup, How::First),
            "nth" => engine::query(&b.soup, ops).run(How::All).nth(k).map(|i| id(&i)).into_iter().collect(),
            "count" => vec![engine::query(&b.soup, ops).run(How::All).take(cap).count()],
            "last" => engine::query(&b.soup, ops).run(How::All).take(cap).last().map(|i| id(&i)).into_iter().collect(),
            "iter" => list(Box::new(b.soup.iter().map(|i| id(&i)))),
            "descendants" => list(Box::new(root().descendants().map(id))),
            "children" => list(Box::new(root().children().iter().map(id))),
            "kids" => match root().direct() {
                Some((a, each)) => {
                    let v: Vec<usize> = a.take(cap).map(id).collect();
                    if v != each.take(cap).map(id).collect::<Vec<_>>() {
                        return Some(json!({"by": name, "wrong": "the two ways of direct iteration differ"}));
                    }
                    v
                }
                None => continue,
            },
            "inside" => {
                let sub = sub.get_or_insert_with(|| b.soup.iter().next().expect("HARNESS empty document").query());
                items(sub, How::All)
            }
            "text" => {
                let (got, want) = (unmarked(&root().all_text()), giant::text(&ask["text"]));
                if got != want.get(1..).unwrap_or("") {
                    return Some(json!({"by": name, "ask": ask, "chars": got.len(), "expected": want.len().saturating_sub(1)}));
                }
                continue;
            }
            w => panic!("HARNESS unknown ask {w}"),
        };
        if let Some(t) = told(got, &places(&ask["want"])) {
            return Some(json!({"by": name, "ask": ask, "wrong": t}));
        }
    }
    None
}

pub fn vast(rec: &Value) -> Value {
    let doc = doc(&rec["doc"]);
    let mut wrong = run::<back::Plain>("user-defined", &doc, rec);
    #[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
    {
        wrong = wrong.or_else(|| run::<soupy::parser::HTMLNode<back::Tagged>>("HTMLNode", &doc, rec));
    }
    #[cfg(feature = "uses-xml")]
    {
        wrong = wrong.or_else(|| run::<soupy::parser::XMLNode>("XMLNode", &doc, rec));
    }
    wrong.unwrap_or_else(|| json!({"same": true}))
}
