//! Ways of building a document.

use std::{
    cell::RefCell,
    sync::{Arc, Mutex},
};

use serde_json::{json, Value};
use soupy::{parser::Parser, Node, Queryable, Soup};

use crate::{
    back::{self, Make, Plain},
    flat,
};

/// What a parser is given: cannot be duplicated, so it can only be handed on.
pub struct Ticket(String);
#[derive(Debug, PartialEq)]
pub struct Refused(u64);

/// What happens while documents are being built, in order.
#[derive(Default)]
struct Script {
    entries: Vec<Value>,
    at: usize,
    builds: usize,
    calls: Vec<Value>,
    results: Vec<(usize, Result<Soup<Plain>, u64>)>,
}
type Shared = Arc<Mutex<Script>>;
thread_local!(static SCRIPT: RefCell<Shared> = RefCell::default());

fn script() -> Shared {
    SCRIPT.with(|s| s.borrow().clone())
}

fn next(s: &Shared) -> Option<Value> {
    let mut s = s.lock().unwrap();
    s.at += 1;
    s.entries.get(s.at - 1).cloned()
}

const PANICS: u64 = 3;

/// Builds a document as the script's entry says, and keeps it.
fn build(e: &Value) {
    let s = script();
    let b = {
        let mut s = s.lock().unwrap();
        s.builds += 1;
        s.builds
    };
    let input = Ticket(flat::text(&e["x"]));
    let new = move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Soup::new::<Scripted>(input)));
    let r = if e["own"] == json!(true) {
        let shared = s.clone();
        std::thread::scope(|t| {
            t.spawn(move || {
                SCRIPT.with(|s| *s.borrow_mut() = shared);
                new()
            })
            .join()
            .unwrap_or_else(Err)
        })
    } else {
        new()
    };
    let r = match r {
        Ok(Ok(soup)) => Ok(soup),
        Ok(Err(Refused(c))) => Err(c),
        Err(_) => Err(PANICS),
    };
    s.lock().unwrap().results.push((b, r));
}

pub struct Scripted;
impl Parser for Scripted {
    type Input = Ticket;
    type Node = Plain;
    type Error = Refused;
    fn parse(input: Ticket) -> Result<Vec<Plain>, Refused> {
        let s = script();
        s.lock().unwrap().calls.push(flat::cps(&input.0));
        loop {
            match next(&s) {
                Some(e) if e["e"] == json!("in") => build(&e),
                Some(e) if e["ok"] == json!(true) => return Ok(back::build(&back::doc(&e["doc"])).unwrap()),
                Some(e) if e["code"] == json!(PANICS) => std::panic::resume_unwind(Box::new(())),
                Some(e) => return Err(Refused(e["code"].as_u64().unwrap())),
                None => return Err(Refused(1000)),
            }
        }
    }
}

fn shape(nodes: &[&Plain], out: &mut Vec<(usize, usize)>, d: usize) {
    for n in nodes {
        out.push((n.id(), d));
        shape(&n.children().iter().collect::<Vec<_>>(), out, d + 1);
    }
}

pub fn parser(rec: &Value) -> Value {
    let entries = rec["script"].as_array().unwrap();
    // the last entry belongs to no build
    let last = entries.len() - 1;
    SCRIPT.with(|s| *s.borrow_mut() = Arc::new(Mutex::new(Script { entries: entries.clone(), ..Default::default() })));
    let s = script();
    while s.lock().unwrap().at < last {
        let e = next(&s).unwrap();
        assert!(e["e"] == json!("in") || s.lock().unwrap().builds > 0, "HARNESS script");
        if e["e"] == json!("in") {
            build(&e);
        }
    }
    let s = s.lock().unwrap();
    // every document is looked at when all of them have been built
    let results: Vec<Value> = s
        .results
        .iter()
        .enumerate()
        .map(|(j, (b, r))| {
            let want = &rec["want"]["results"][j];
            match r {
                Ok(soup) => {
                    let top: Vec<&Plain> = soup.strict().into_iter().take(1000).map(|i| unsafe { &*(&*i as *const Plain) }).collect();
                    let mut got = vec![];
                    shape(&top, &mut got, 0);
                    let doc = want["doc"].as_array().map_or(&[][..], Vec::as_slice);
                    let same = want["ok"] == json!(true)
                        && want["build"] == json!(b)
                        && got.iter().map(|g| g.0).eq(1..=doc.len())
                        && got.iter().zip(doc).all(|(g, w)| json!(g.1) == w["d"]);
                    if same { want.clone() } else { json!({"build": b, "ok": true, "nodes": got}) }
                }
                Err(c) => json!({"build": b, "ok": false, "doc": [], "code": c}),
            }
        })
        .collect();
    json!({"results": results, "calls": s.calls})
}

#[allow(dead_code)]
fn tops<N: Node + Clone>(s: &Soup<N>) -> Vec<N> {
    s.strict().into_iter().map(|i| (*i).clone()).collect()
}

#[allow(unused_variables, unused_mut)]
pub fn constructors(rec: &Value) -> Value {
    if rec["rle"].is_array() {
        // expanded here, told by its digest
        let whole = crate::giant::text(&rec["rle"]);
        let mut v = from(&rec["fmt"], whole.clone(), whole.into_bytes());
        for w in v["ways"].as_array_mut().unwrap() {
            use std::hash::{Hash, Hasher};
            let mut h = std::hash::DefaultHasher::new();
            w["out"].to_string().hash(&mut h);
            w["out"] = json!({"ok": w["out"]["ok"], "nodes": w["out"]["doc"].as_array().map_or(0, Vec::len), "digest": format!("{:x}", h.finish())});
        }
        return v;
    }
    let bytes: Vec<u8> = rec["bytes"].as_array().map_or_else(Vec::new, |b| b.iter().map(|x| x.as_u64().unwrap() as u8).collect());
    let src = if rec["src"].is_array() { flat::text(&rec["src"]) } else { String::new() };
    from(&rec["fmt"], src, bytes)
}

#[allow(unused_variables, unused_mut)]
fn from(fmt: &Value, src: String, bytes: Vec<u8>) -> Value {
    let mut ways: Vec<(&str, Value)> = vec![];
    match fmt.as_str().unwrap() {
        #[cfg(feature = "uses-strict")]
        "strict" => {
            use soupy::parser::StrictHTMLParser as P;
            let src: &str = &src;
            let out = |r: Result<Vec<_>, String>| match r {
                Ok(n) => json!({"ok": true, "doc": flat::to_json(&flat::html::<std::borrow::Cow<str>>(&n))}),
                Err(e) => json!({"ok": false, "err": e}),
            };
            let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
            ways.push(("parse", out(P::parse(src).map_err(|x| e(&x)))));
            ways.push(("new", out(Soup::new::<P>(src).map(|s| tops(&s)).map_err(|x| e(&x)))));
            ways.push(("html_strict", out(Soup::html_strict(src).map(|s| tops(&s)).map_err(|x| e(&x)))));
            ways.push(("html_strict again", out(Soup::html_strict(src).map(|s| tops(&s)).map_err(|x| e(&x)))));
        }
        #[cfg(feature = "uses-lenient")]
        "lenient" => {
            use soupy::parser::LenientHTMLParser as P;
            let out = |n: Vec<_>| json!({"ok": true, "doc": flat::to_json(&flat::html::<scraper::StrTendril>(&n))});
            let s: &str = &src;
            ways.push(("parse", out(P::parse(s).unwrap_or_default())));
            ways.push(("new", out(Soup::new::<P<&str>>(s).map(|s| tops(&s)).unwrap_or_default())));
            ways.push(("html", out(tops(&Soup::html(s)))));
            ways.push(("parse String", out(P::parse(src.clone()).unwrap_or_default())));
            ways.push(("html String", out(tops(&Soup::html(src.clone())))));
            ways.push(("html &String", out(tops(&Soup::html(&src)))));
            ways.push(("html Cow", out(tops(&Soup::html(std::borrow::Cow::Borrowed(s))))));
            ways.push(("html Box", out(tops(&Soup::html(Box::<str>::from(s))))));
        }
        #[cfg(feature = "uses-xml")]
        "xml" => {
            use soupy::parser::XMLParser as P;
            let out = |r: Result<Vec<_>, String>| match r {
                Ok(n) => json!({"ok": true, "doc": flat::xml(&n)}),
                Err(e) => json!({"ok": false, "err": e}),
            };
            let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
            let b: &[u8] = &bytes;
            ways.push(("parse", out(P::parse(b).map_err(|x| e(&x)))));
            ways.push(("new", out(Soup::new::<P<&[u8]>>(b).map(|s| tops(&s)).map_err(|x| e(&x)))));
            ways.push(("xml", out(Soup::xml(b).map(|s| tops(&s)).map_err(|x| e(&x)))));
            ways.push(("xml cursor", out(Soup::xml(std::io::Cursor::new(bytes.clone())).map(|s| tops(&s)).map_err(|x| e(&x)))));
            let mut r = b;
            ways.push(("xml &mut", out(Soup::xml(&mut r).map(|s| tops(&s)).map_err(|x| e(&x)))));
            ways.push(("xml dyn", out(Soup::xml(Box::new(b) as Box<dyn std::io::Read>).map(|s| tops(&s)).map_err(|x| e(&x)))));
        }
        f => panic!("HARNESS unknown format {f}"),
    }
    json!({"ways": ways.into_iter().map(|(w, out)| json!({"way": w, "out": out})).collect::<Vec<_>>()})
}
