//! Does everything return, and how long does it take?

use serde_json::{json, Value};
#[allow(unused_imports)]
use soupy::parser::Parser;
use soupy::{Node, Queryable, Soup};

use crate::{flat, query};

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// CPU time of this thread in units of 10 microseconds: other load does not count.
fn clock() -> i64 {
    let mut t = Timespec { s: 0, n: 0 };
    // SAFETY: t is a valid timespec; 3 is CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s * 100_000 + t.n / 10_000
}

fn timed<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let a = clock();
    let v = f();
    (v, clock() - a)
}

/// Nodes and the sum of their depths (from 1), without recursion.
fn size<N: Node>(soup: &Soup<N>) -> (u64, u64) {
    let mut stack: Vec<(&N, u64)> = query::top(soup).into_iter().map(|n| (n, 1)).collect();
    let (mut nodes, mut steps) = (0, 0);
    while let Some((n, d)) = stack.pop() {
        nodes += 1;
        steps += d;
        stack.extend(n.children().iter().map(|c| (c, d + 1)));
    }
    (nodes, steps)
}

fn survey<N>(soup: &Soup<N>) -> Value
where
    N: Node<Text: Ord + std::fmt::Display> + Clone,
{
    let (nodes, _) = size(soup);
    let top = query::top(soup);
    let below: usize = top.iter().map(|n| n.descendants().count()).sum();
    let text: usize = top.iter().map(|n| n.all_text().len()).sum();
    let named = soup.tag(true).all().count();
    let attributed = soup.attr(true, true).all().count();
    let inner = soup.iter().next().map_or(0, |i| i.query().iter().count());
    json!({
        "end": "document", "nodes": nodes, "iter": soup.iter().count(), "roots": top.len(),
        "strict": soup.strict().all().count(), "below": below, "text": text, "named": named,
        "attributed": attributed, "never": soup.tag(false).all().count(), "inner": inner,
    })
}

fn end() -> Value {
    json!({"end": "error"})
}

fn one(parser: &str, src: &[u8]) -> Option<Value> {
    #[allow(unused_variables)]
    let text = std::str::from_utf8(src);
    match parser {
        #[cfg(feature = "uses-strict")]
        "strict" => Some(Soup::html_strict(text.ok()?).map_or_else(|_| end(), |s| survey(&s))),
        #[cfg(feature = "uses-lenient")]
        "lenient" => Some(survey(&Soup::html(text.ok()?))),
        #[cfg(feature = "uses-xml")]
        "xml" => Some(Soup::xml(src).map_or_else(|_| end(), |s| survey(&s))),
        _ => None,
    }
}

/// Every parser on one input, and every kind of search on what it made.
pub fn total(rec: &Value) -> Value {
    let src: Vec<u8> = if rec["bytes"].is_array() {
        rec["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
    } else {
        flat::text(&rec["src"]).into_bytes()
    };
    let mut out = json!({});
    for p in ["strict", "lenient", "xml"] {
        if let Some(v) = one(p, &src) {
            out[p] = v;
        }
    }
    out
}

fn grown(rec: &Value, n: usize) -> String {
    let part = |k: &str| flat::text(&rec[k]);
    let units = match rec["after"].as_array() {
        // every unit carries its number, so that no two are alike
        Some(_) => (0..n).map(|i| format!("{}{i}{}", part("unit"), part("after"))).collect(),
        None => part("unit").repeat(n),
    };
    part("pre") + &units + &part("mid") + &part("close").repeat(n) + &part("post")
}

/// One input made of repeated pieces.
pub fn pattern(rec: &Value) -> Value {
    let src = grown(rec, rec["n"].as_u64().unwrap() as usize);
    one(rec["parser"].as_str().unwrap(), src.as_bytes()).expect("HARNESS parser")
}

struct Times {
    parse: i64,
    walk: i64,
    text: i64,
    engine: i64,
    nodes: u64,
    steps: u64,
}

fn measure<N, E>(parse: impl Fn() -> Result<Soup<N>, E>, engine: impl Fn()) -> Times
where
    N: Node<Text: Ord + std::fmt::Display>,
{
    let mut t = Times { parse: i64::MAX, walk: i64::MAX, text: i64::MAX, engine: i64::MAX, nodes: 0, steps: 0 };
    for _ in 0..2 {
        let (soup, p) = timed(&parse);
        t.parse = t.parse.min(p);
        t.engine = t.engine.min(timed(&engine).1);
        if let Ok(s) = soup {
            (t.nodes, t.steps) = size(&s);
            t.walk = t.walk.min(timed(|| s.tag(true).attr(true, true).all().count()).1);
            t.text = t.text.min(timed(|| query::top(&s).iter().map(|n| n.all_text().len()).sum::<usize>()).1);
        } else {
            (t.walk, t.text) = (0, 0);
        }
    }
    t
}

/// The same pattern at several sizes, with the time each takes.
pub fn growth(rec: &Value) -> Value {
    let mut out = vec![];
    for n in rec["sizes"].as_array().unwrap() {
        let src = grown(rec, n.as_u64().unwrap() as usize);
        let t: Times = match rec["parser"].as_str().unwrap() {
            #[cfg(feature = "uses-strict")]
            "strict" => measure(|| Soup::html_strict(&src), || ()),
            #[cfg(feature = "uses-lenient")]
            "lenient" => measure(|| Ok::<_, ()>(Soup::html(&src)), || drop(scraper::Html::parse_document(&src))),
            #[cfg(feature = "uses-xml")]
            "xml" => measure(|| Soup::xml(src.as_bytes()), || drop(xmltree::Element::parse_all(src.as_bytes()))),
            p => panic!("HARNESS parser {p}"),
        };
        out.push(json!({"len": src.len(), "nodes": t.nodes, "steps": t.steps / 100 + 1,
                        "parse": t.parse, "walk": t.walk, "text": t.text, "engine": t.engine}));
    }
    json!({"runs": out})
}
