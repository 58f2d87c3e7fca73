//! Replays programs of consuming calls on the library's iterators, through their own types.

use serde_json::{json, Value};
use soupy::{Node, Pattern, Queryable};

use crate::{
    back,
    engine::Searchable,
    pat::Pat,
    query::{self, Built, Direct},
};

/// Runs one program; `pos` tells which node an item is.
fn consume<T, I: Iterator<Item = T>>(it: I, pos: impl Fn(&T) -> usize, steps: &[Value]) -> Vec<Value> {
    let mut it = Some(it);
    let mut outs = vec![];
    for s in steps {
        let k = s["k"].as_u64().unwrap() as usize;
        let m = s["m"].as_u64().unwrap() as usize;
        let holds = |x: &T| pos(x) % (k + 2) == 0;
        let one = |x: Option<T>| vec![x.map_or(0, |x| pos(&x))];
        let all = |v: Vec<T>| v.iter().map(&pos).collect::<Vec<_>>();
        let i = it.as_mut().expect("HARNESS iterator is used up");
        let going = match s["o"].as_str().unwrap() {
            "next" => Some(one(i.next())),
            "nth" => Some(one(i.nth(k))),
            "hop" => Some(one(i.by_ref().skip(k).next())),
            "take" => Some(all(i.by_ref().take(k).collect())),
            "step" => Some(all(i.by_ref().step_by(k).take(m).collect())),
            "find" => Some(one(i.find(holds))),
            "place" => Some(vec![i.position(|x| holds(&x)).map_or(0, |p| p + 1)]),
            "any" => Some(vec![usize::from(i.any(|x| holds(&x)))]),
            "until" => Some(all(i.by_ref().take_while(|x| !holds(x)).collect())),
            "hint" => {
                let (lo, hi) = i.size_hint();
                outs.push(json!([lo.min(1 << 30), hi.map_or(-1, |h| h.min(1 << 30) as i64)]));
                continue;
            }
            _ => None,
        };
        if let Some(v) = going {
            outs.push(json!(v));
            continue;
        }
        let i = it.take().unwrap();
        outs.push(json!(match s["o"].as_str().unwrap() {
            "count" => vec![i.count()],
            "last" => one(i.last()),
            "collect" => all(i.collect()),
            "chain" => all(std::iter::empty().chain(i).collect()),
            "fold" => i.fold(vec![], |mut v, x| {
                v.push(pos(&x));
                v
            }),
            "each" => {
                let mut v = vec![];
                i.for_each(|x| v.push(pos(&x)));
                v
            }
            "skip" => all(i.skip(k).collect()),
            "stepall" => all(i.step_by(k).collect()),
            "max" => one(i.max_by_key(&pos)),
            "min" => one(i.min_by_key(&pos)),
            "halves" => {
                let (a, b): (Vec<T>, Vec<T>) = i.partition(holds);
                all(a.into_iter().chain(b).collect())
            }
            o => panic!("HARNESS unknown way of consuming {o}"),
        }));
    }
    outs
}

fn source<N: Searchable + Direct>(b: &'static Built<N>, src: &Value, steps: &[Value], size: usize) -> Result<Vec<Value>, String>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    let a: &'static Pat = Box::leak(Box::new(Pat::Str("a")));
    let x: &'static Pat = Box::leak(Box::new(Pat::Str("x")));
    let cap = 2 * size + 8;
    macro_rules! on {
        ($make:expr, $pos:expr) => {{
            if $make.take(cap).count() == cap {
                return Err("does not end".into());
            }
            consume($make, $pos, steps)
        }};
    }
    macro_rules! query {
        ($make:expr) => {
            on!($make, |i: &soupy::query::QueryItem<'static, N>| b.pos(&**i))
        };
    }
    let s = &b.soup;
    let node = |i: &Value| query::nodes(b, size)[i.as_u64().unwrap() as usize];
    Ok(match src["s"].as_str().unwrap() {
        "whole" => query!(s.all()),
        "strict" => query!(s.strict().into_iter()),
        "recursive" => query!(s.recursive().all()),
        "iter" => query!(s.iter()),
        "loop" => query!(s.into_iter()),
        "tag" => query!(s.tag(a).all()),
        "tagstrict" => query!(s.tag(a).strict().into_iter()),
        "stricttag" => query!(s.strict().tag(a).all()),
        "attr" => query!(s.attr_name(x).into_iter()),
        k => {
            let n = node(&src["n"]).ok_or("cannot be reached")?;
            let pos = |i: &&'static N| b.pos(i);
            match k {
                "desc" => on!(n.descendants(), pos),
                "kids" if n.direct().is_some() => on!(n.direct().unwrap().0, pos),
                "each" if n.direct().is_some() => on!(n.direct().unwrap().1, pos),
                "kids" | "each" => on!(n.children().iter(), pos),
                k => panic!("HARNESS unknown iterator {k}"),
            }
        }
    })
}

fn run<N: Searchable + Direct + back::Make>(name: &'static str, doc: &[back::Spec], rec: &Value, seen: &mut Vec<Value>) -> Result<(), Value>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    let Some(b) = query::built::<N>(name, doc) else { return Ok(()) };
    let b = Box::into_raw(Box::new(b));
    let steps = rec["steps"].as_array().expect("HARNESS steps");
    let mut outs = vec![];
    for s in rec["sources"].as_array().expect("HARNESS sources") {
        outs.push(match source(unsafe { &*b }, s, steps, doc.len()) {
            Ok(v) => json!(v),
            Err(e) => return Err(json!({"by": name, "source": s, "wrong": e})),
        });
    }
    drop(unsafe { Box::from_raw(b) });
    seen.push(json!({"by": name, "outs": outs}));
    Ok(())
}

/// A promise about the size stands for the size it is kept for.
fn kept(steps: &Value, got: &Value, want: &Value) -> bool {
    let (Some(g), Some(w)) = (got.as_array(), want.as_array()) else { return false };
    g.len() == w.len()
        && (0..g.len()).all(|j| {
            if steps[j]["o"] == json!("hint") {
                let n = w[j][0].as_i64().unwrap();
                let (lo, hi) = (g[j][0].as_i64().unwrap(), g[j][1].as_i64().unwrap());
                lo <= n && (hi == -1 || hi >= n)
            } else {
                g[j] == w[j]
            }
        })
}

fn observed(rec: &Value) -> Result<Vec<Value>, Value> {
    let doc = back::doc(&rec["doc"]);
    let mut seen = vec![];
    run::<back::Plain>("user-defined", &doc, rec, &mut seen)?;
    #[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
    run::<soupy::parser::HTMLNode<back::Tagged>>("HTMLNode", &doc, rec, &mut seen)?;
    #[cfg(feature = "uses-xml")]
    run::<soupy::parser::XMLNode>("XMLNode", &doc, rec, &mut seen)?;
    Ok(seen)
}

pub fn programs(rec: &Value) -> Value {
    let seen = match observed(rec) {
        Ok(s) => s,
        Err(e) => return e,
    };
    let Some(want) = rec.get("want") else { return json!({ "seen": seen }) };
    for s in &seen {
        for (j, w) in want["outs"].as_array().unwrap().iter().enumerate() {
            if !kept(&rec["steps"], &s["outs"][j], w) {
                return json!({"by": s["by"], "source": rec["sources"][j], "outs": s["outs"][j], "expected": w});
            }
        }
    }
    want.clone()
}
