//! Replays queries, traversals and accessors on every node type.

use std::collections::HashMap;

use serde_json::{json, Value};
use soupy::{Node, Pattern, Queryable, Soup};

use crate::{
    back::{self, Make, Spec},
    engine::{self, How, Op, Searchable},
    flat,
    pat::Pat,
};

/// A document in one representation: the real nodes and which position each one has.
pub trait Bench {
    fn name(&self) -> &'static str;
    /// the position each node is told by, when some stand for others
    fn canon(&self) -> Option<&[usize]>;
    fn answers(&self, suite: &[Option<&'static [Op]>], cap: usize) -> Vec<Option<(Vec<usize>, Vec<usize>, Vec<usize>)>>;
}

pub struct Built<N> {
    pub name: &'static str,
    pub soup: Soup<N>,
    /// positions by address, for nodes that carry no position of their own
    pub at: Option<HashMap<usize, usize>>,
    pub id: fn(&N) -> usize,
    pub canon: Option<Vec<usize>>,
}

impl<N: Node> Built<N> {
    pub fn pos(&self, n: &N) -> usize {
        match &self.at {
            Some(m) => m.get(&(n as *const N as usize)).copied().unwrap_or(0),
            None => (self.id)(n),
        }
    }
}

pub fn built<N: Make>(name: &'static str, doc: &[Spec]) -> Option<Built<N>> {
    Some(Built { name, soup: back::soup(back::build::<N>(doc)?), at: None, id: N::id, canon: None })
}

/// Positions of the nodes a parser made, by walking the raw children.
pub fn parsed<N: Node + 'static>(name: &'static str, soup: Soup<N>, roots: fn(&Soup<N>) -> Vec<&N>) -> Built<N> {
    let mut at = HashMap::new();
    let mut stack: Vec<&N> = roots(&soup);
    stack.reverse();
    let mut i = 0;
    while let Some(n) = stack.pop() {
        i += 1;
        at.insert(n as *const N as usize, i);
        stack.extend(n.children().iter().rev());
    }
    Built { name, soup, at: Some(at), id: |_| 0, canon: None }
}

const SHARED: &str = "user-defined, shared";

/// Nodes of the user's own that share equal lists of children.
pub fn shared(doc: &[Spec]) -> Option<Built<back::Plain>> {
    let (nodes, canon) = back::shared(doc)?;
    Some(Built { name: SHARED, soup: back::soup(nodes), at: None, id: Make::id, canon: Some(canon) })
}

/// Positions as they are told by nodes that stand for others.
fn through(w: &Value, canon: Option<&[usize]>) -> Value {
    match (canon, w) {
        (None, _) => w.clone(),
        (Some(c), Value::Number(n)) => json!(c[n.as_u64().unwrap() as usize]),
        (_, Value::Array(v)) => v.iter().map(|x| through(x, canon)).collect(),
        (_, Value::Object(o)) => o.iter().map(|(k, x)| (k.clone(), through(x, canon))).collect(),
        _ => w.clone(),
    }
}

pub fn top<N: Node>(s: &Soup<N>) -> Vec<&N> {
    s.strict().into_iter().map(|i| unsafe { &*(&*i as *const N) }).collect()
}

impl<N: Searchable> Bench for Built<N>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn canon(&self) -> Option<&[usize]> {
        self.canon.as_deref()
    }
    fn answers(&self, suite: &[Option<&'static [Op]>], cap: usize) -> Vec<Option<(Vec<usize>, Vec<usize>, Vec<usize>)>> {
        suite
            .iter()
            .map(|ops| {
                let ops = (*ops)?;
                // a faulty iterator may never end: take a bounded number of items
                let run = |how| -> Vec<usize> {
                    engine::query(&self.soup, ops).run(how).take(cap).map(|i| self.pos(&i)).collect()
                };
                Some((run(How::All), run(How::Into), run(How::First)))
            })
            .collect()
    }
}

pub fn benches(doc: &[Spec]) -> Vec<Box<dyn Bench>> {
    let mut v: Vec<Box<dyn Bench>> = vec![];
    if let Some(b) = built::<back::Plain>("user-defined", doc) {
        v.push(Box::new(b));
    }
    if let Some(b) = shared(doc) {
        v.push(Box::new(b));
    }
    #[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
    if let Some(b) = built::<soupy::parser::HTMLNode<back::Tagged>>("HTMLNode", doc) {
        v.push(Box::new(b));
    }
    #[cfg(feature = "uses-xml")]
    if let Some(b) = built::<soupy::parser::XMLNode>("XMLNode", doc) {
        v.push(Box::new(b));
    }
    v
}

fn first_of(v: &[usize]) -> Vec<usize> {
    v.iter().take(1).copied().collect()
}

/// `want` is what the specification answers; the result is `want` itself when every
/// representation gives exactly that, and otherwise says who differs where.
pub fn query(rec: &Value, suite: &[Option<&'static [Op]>]) -> Value {
    let doc = back::doc(&rec["doc"]);
    let benches = benches(&doc);
    assert!(!benches.is_empty(), "HARNESS no representation");
    compare(&benches, rec, suite, doc.len())
}

pub fn compare(benches: &[Box<dyn Bench>], rec: &Value, suite: &[Option<&'static [Op]>], size: usize) -> Value {
    let want = rec.get("want");
    let mut seen = vec![];
    for b in benches {
        let got = b.answers(suite, 2 * size + 8);
        for (j, g) in got.iter().enumerate() {
            let Some((all, into, first)) = g else { continue };
            if into != all {
                return json!({"by": b.name(), "query": j, "all": all, "iterated": into});
            }
            if let Some(w) = want {
                let expect = through(&json!({"all": w["all"][j], "first": w["first"][j]}), b.canon());
                let f = first.first().copied().unwrap_or(0);
                if json!({"all": all, "first": f}) != expect || *first != first_of(first) {
                    return json!({"by": b.name(), "query": j, "all": all, "first": first, "expected": expect});
                }
            } else if *first != first_of(all) {
                return json!({"by": b.name(), "query": j, "all": all, "first": first});
            }
        }
        let mut s = json!({"by": b.name(), "all": got.iter().map(|g| g.as_ref().map_or(json!([]), |g| json!(g.0))).collect::<Vec<_>>()});
        if let Some(c) = b.canon() {
            s["canon"] = json!(c[1..]);
        }
        seen.push(s);
    }
    match want {
        Some(w) => w.clone(),
        None => json!({ "seen": seen }),
    }
}

// ---- traversal -----------------------------------------------------------------------------

trait Travel {
    fn name(&self) -> &'static str;
    fn canon(&self) -> Option<&[usize]>;
    fn travel(&self, want: &Value) -> Result<Value, String>;
    fn roam(&self, from: &[usize], size: usize) -> Result<Value, String>;
}

/// Pulls an iterator past its end; says what is wrong with how it ends or what it promises.
fn drain<'x, N: 'x>(
    make: impl Fn() -> Box<dyn Iterator<Item = &'x N> + 'x>,
    pos: impl Fn(&N) -> usize,
    cap: usize,
) -> Result<Vec<usize>, String> {
    let mut it = make();
    let mut out: Vec<usize> = vec![];
    let mut hints = vec![];
    loop {
        hints.push(it.size_hint());
        match it.next() {
            Some(n) if out.len() <= cap => out.push(pos(n)),
            Some(_) => return Err(format!("does not end: {out:?}")),
            None => break,
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err(format!("delivers more after its end: {out:?}"));
        }
    }
    for (k, (lo, hi)) in hints.iter().enumerate() {
        let left = out.len() - k;
        if *lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size_hint {lo}..{hi:?} with {left} left"));
        }
    }
    if make().count() != out.len() || make().last().map(&pos) != out.last().copied() {
        return Err("count or last differ from stepping".into());
    }
    for k in 0..=out.len() {
        let mut it = make();
        if it.nth(k).map(&pos) != out.get(k).copied() || (k < out.len() && it.next().map(&pos) != out.get(k + 1).copied()) {
            return Err(format!("nth({k}) differs from stepping"));
        }
    }
    let folded = make().fold(vec![], |mut v, n| {
        v.push(pos(n));
        v
    });
    if folded != out {
        return Err("fold differs from stepping".into());
    }
    Ok(out)
}

/// Direct iteration over a node: `node.iter()` and `for child in &node`.
pub trait Direct: Node {
    fn direct(&self) -> Option<(Box<dyn Iterator<Item = &Self> + '_>, Box<dyn Iterator<Item = &Self> + '_>)>;
}
impl Direct for back::Plain {
    fn direct(&self) -> Option<(Box<dyn Iterator<Item = &Self> + '_>, Box<dyn Iterator<Item = &Self> + '_>)> {
        None
    }
}
#[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
impl<S> Direct for soupy::parser::HTMLNode<S> {
    fn direct(&self) -> Option<(Box<dyn Iterator<Item = &Self> + '_>, Box<dyn Iterator<Item = &Self> + '_>)> {
        Some((Box::new(self.iter()), Box::new(self.into_iter())))
    }
}
#[cfg(feature = "uses-xml")]
impl Direct for soupy::parser::XMLNode {
    fn direct(&self) -> Option<(Box<dyn Iterator<Item = &Self> + '_>, Box<dyn Iterator<Item = &Self> + '_>)> {
        Some((Box::new(self.iter()), Box::new(self.into_iter())))
    }
}

/// Nodes by position, reached through the raw child slices of the top-level nodes.
pub fn nodes<'x, N: Node>(b: &'x Built<N>, n: usize) -> Vec<Option<&'x N>> {
    let mut v = vec![None; n + 1];
    let mut stack = top(&b.soup);
    while let Some(x) = stack.pop() {
        let p = b.pos(x);
        if p <= n {
            v[p] = Some(x);
        }
        stack.extend(x.children());
    }
    if let Some(c) = &b.canon {
        for i in 1..=n {
            v[i] = v[c[i]];
        }
    }
    v
}

/// The node of a result, for as long as the document lives.
fn item<'s, N>(i: soupy::query::QueryItem<'s, N>) -> &'s N {
    unsafe { &*(&*i as *const N) }
}

impl<N: Direct + 'static> Travel for Built<N> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn canon(&self) -> Option<&[usize]> {
        self.canon.as_deref()
    }
    fn travel(&self, want: &Value) -> Result<Value, String> {
        let n = want["desc"].as_array().map_or(0, Vec::len);
        let cap = 2 * n + 8;
        let at = nodes(self, n);
        let (mut desc, mut kids) = (vec![], vec![]);
        for i in 1..=n {
            let Some(x) = at[i] else { return Err(format!("node {i} cannot be reached")) };
            desc.push(drain(|| Box::new(x.descendants()), |m| self.pos(m), cap)?);
            let c = drain(|| Box::new(x.children().iter()), |m| self.pos(m), cap)?;
            if x.direct().is_some() {
                let a = drain(|| x.direct().unwrap().0, |m| self.pos(m), cap)?;
                let b = drain(|| x.direct().unwrap().1, |m| self.pos(m), cap)?;
                if a != c || b != c {
                    return Err(format!("node {i}: children {c:?}, iter {a:?}, into_iter {b:?}"));
                }
            }
            kids.push(c);
        }
        let iter = drain(|| Box::new(self.soup.iter().map(item)), |m| self.pos(m), cap)?;
        let looped = drain(|| Box::new((&self.soup).into_iter().map(item)), |m| self.pos(m), cap)?;
        if looped != iter {
            return Err(format!("iter() {iter:?}, for loop {looped:?}"));
        }
        let t = drain(|| Box::new(self.soup.strict().into_iter().map(item)), |m| self.pos(m), cap)?;
        Ok(json!({"desc": desc, "kids": kids, "iter": iter, "top": t}))
    }

    fn roam(&self, from: &[usize], size: usize) -> Result<Value, String> {
        let cap = 2 * size + 8;
        let at = nodes(self, size);
        let (mut desc, mut kids) = (vec![], vec![]);
        for i in from {
            let Some(x) = at[*i] else { return Err(format!("node {i} cannot be reached")) };
            desc.push(x.descendants().take(cap).map(|m| self.pos(m)).collect::<Vec<_>>());
            kids.push(x.children().iter().map(|m| self.pos(m)).collect::<Vec<_>>());
        }
        let iter: Vec<usize> = self.soup.iter().map(item).take(cap).map(|m| self.pos(m)).collect();
        let top: Vec<usize> = self.soup.strict().into_iter().map(item).take(cap).map(|m| self.pos(m)).collect();
        Ok(json!({"desc": desc, "kids": kids, "iter": iter, "top": top}))
    }
}

fn told(b: &dyn Travel, key: &str, got: Value) -> Value {
    let mut v = json!({"by": b.name(), key: got});
    if let Some(c) = b.canon() {
        v["canon"] = json!(c[1..]);
    }
    v
}

pub fn roam(rec: &Value) -> Value {
    let doc = back::doc(&rec["doc"]);
    let from: Vec<usize> = rec["from"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
    let mut seen = vec![];
    for b in travellers(&doc) {
        match b.roam(&from, doc.len()) {
            Ok(got) => seen.push(told(&*b, "roam", got)),
            Err(e) => return json!({"by": b.name(), "wrong": e}),
        }
    }
    json!({ "seen": seen })
}

fn travellers(doc: &[Spec]) -> Vec<Box<dyn Travel>> {
    let mut v: Vec<Box<dyn Travel>> = vec![];
    if let Some(b) = built::<back::Plain>("user-defined", doc) {
        v.push(Box::new(b));
    }
    if let Some(b) = shared(doc) {
        v.push(Box::new(b));
    }
    #[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
    if let Some(b) = built::<soupy::parser::HTMLNode<back::Tagged>>("HTMLNode", doc) {
        v.push(Box::new(b));
    }
    #[cfg(feature = "uses-xml")]
    if let Some(b) = built::<soupy::parser::XMLNode>("XMLNode", doc) {
        v.push(Box::new(b));
    }
    v
}

pub fn travel(rec: &Value) -> Value {
    let doc = back::doc(&rec["doc"]);
    let v = travellers(&doc);
    let mut seen = vec![];
    for b in v {
        let n = doc.len();
        let probe = json!({"desc": vec![0; n]});
        match b.travel(&probe) {
            Ok(got) if rec.get("want").is_none_or(|w| through(w, b.canon()) == got) => seen.push(told(&*b, "travel", got)),
            Ok(got) => return json!({"by": b.name(), "travel": got}),
            Err(e) => return json!({"by": b.name(), "wrong": e}),
        }
    }
    match rec.get("want") {
        Some(w) => w.clone(),
        None => json!({ "seen": seen }),
    }
}

// ---- accessors ---------------------------------------------------------------------------------

fn opt(v: Option<&str>) -> Value {
    v.map_or(json!([]), |s| json!([flat::cps(s)]))
}

fn accessors<N>(b: &Built<N>, n: usize, from: Option<&[usize]>, probes: &[&'static str], get: impl Fn(&N, &'static str) -> Vec<Option<String>>, clean: fn(&str) -> String) -> Result<Value, String>
where
    N: Node<Text: AsRef<str> + std::fmt::Display> + 'static,
{
    let at = nodes(b, n);
    let mut out = vec![];
    let every: Vec<usize> = (1..=n).collect();
    for &i in from.unwrap_or(&every) {
        let Some(x) = at[i] else { return Err(format!("node {i} cannot be reached")) };
        let text = x.text().map(|t| clean(t.as_ref()));
        let attrs = x.attrs().map_or(json!([]), |a| {
            let mut l: Vec<(String, String)> = a.iter().map(|(k, v)| (k.as_ref().into(), v.as_ref().into())).collect();
            l.sort();
            json!([l.iter().map(|(k, v)| json!([flat::cps(k), flat::cps(v)])).collect::<Vec<_>>()])
        });
        let mut looked = vec![];
        for p in probes {
            let r: Vec<Option<String>> = get(x, p);
            if r.iter().any(|v| *v != r[0]) {
                return Err(format!("node {i}: get({p:?}) depends on how the name is written: {r:?}"));
            }
            looked.push(opt(r[0].as_deref()));
        }
        out.push(json!({
            "name": opt(x.name().map(AsRef::as_ref)), "text": opt(text.as_deref()), "attrs": attrs,
            "all": flat::cps(&clean(&x.all_text())), "get": looked,
        }));
    }
    Ok(json!({ "nodes": out }))
}

fn sorted_attrs(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(ns) = v["nodes"].as_array_mut() {
        for n in ns {
            if let Some(a) = n["attrs"].get_mut(0).and_then(Value::as_array_mut) {
                a.sort_by_key(|p| (flat::text(&p[0]), flat::text(&p[1])));
            }
        }
    }
    v
}

#[cfg(feature = "uses-xml")]
fn unmark(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == back::MARK {
            while it.peek().is_some_and(char::is_ascii_digit) {
                it.next();
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub fn access(rec: &Value) -> Value {
    let doc = back::doc(&rec["doc"]);
    let n = doc.len();
    let probes: Vec<&'static str> = rec["probes"]
        .as_array()
        .expect("HARNESS probes")
        .iter()
        .map(|p| &*Box::leak(flat::text(p).into_boxed_str()))
        .collect();
    let from: Option<Vec<usize>> = rec["from"].as_array().map(|v| v.iter().map(|i| i.as_u64().unwrap() as usize).collect());
    let from = from.as_deref();
    let s = |v: Option<&dyn AsRef<str>>| v.map(|t| t.as_ref().to_string());
    let mut all: Vec<(&str, Result<Value, String>)> = vec![];
    if let Some(b) = built::<back::Plain>("user-defined", &doc) {
        all.push((b.name, accessors(&b, n, from, &probes, |x, p| vec![s(x.get(p).map(|t| t as _))], str::to_string)));
    }
    #[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
    if let Some(b) = built::<soupy::parser::HTMLNode<back::Tagged>>("HTMLNode", &doc) {
        all.push((b.name, accessors(&b, n, from, &probes, |x, p| vec![s(x.get(p).map(|t| t as _))], str::to_string)));
    }
    #[cfg(feature = "uses-xml")]
    if let Some(b) = built::<soupy::parser::XMLNode>("XMLNode", &doc) {
        let get = |x: &soupy::parser::XMLNode, p: &'static str| {
            vec![s(x.get(p).map(|t| t as _)), s(x.get(&p.to_string()).map(|t| t as _))]
        };
        all.push((b.name, accessors(&b, n, from, &probes, get, unmark)));
    }
    let mut seen = vec![];
    for (by, r) in all {
        match r {
            Ok(got) if rec.get("want").is_none_or(|w| sorted_attrs(w) == got) => seen.push(json!({"by": by, "nodes": got["nodes"]})),
            Ok(got) => return json!({"by": by, "nodes": got["nodes"]}),
            Err(e) => return json!({"by": by, "wrong": e}),
        }
    }
    match rec.get("want") {
        Some(w) => w.clone(),
        None => json!({ "seen": seen }),
    }
}

// ---- histories ------------------------------------------------------------------------------------

struct Machine<N: 'static> {
    // dropped in this order: borrowers first
    crowd: Vec<engine::Items<'static, N>>,
    iters: Vec<Option<(engine::Items<'static, N>, Option<soupy::query::QueryItem<'static, N>>)>>,
    queries: Vec<Option<Box<dyn engine::Search<'static, N>>>>,
    soups: Vec<Option<Box<Soup<N>>>>,
    kept: Vec<Box<Soup<N>>>,
}

/// A pattern that gives up while it is being asked.
struct Panics(std::cell::Cell<usize>);
impl<S> Pattern<S> for &Panics {
    fn matches(&self, _: &S) -> bool {
        self.0.set(self.0.get() + 1);
        if self.0.get() > 1 {
            std::panic::resume_unwind(Box::new(()));
        }
        false
    }
}

/// Many searches that come to nothing.
fn stir<N: Searchable>(soup: &Soup<N>, how: &str, times: usize)
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    for k in 0..times {
        match how {
            "panic" => {
                let p = Panics(std::cell::Cell::new(0));
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| soup.tag(&p).all().count()));
            }
            how => {
                let (mut a, mut b, mut c) = (soup.iter(), soup.strict().into_iter(), soup.tag(true).into_iter());
                for _ in 0..k % 5 {
                    a.next();
                    b.next();
                    c.next();
                }
                if how == "forget" {
                    std::mem::forget((a, b, c));
                }
            }
        }
    }
}

/// The first node, the first inside that one, and so on down; every search stays under way.
fn dive<N: Make + Searchable>(soup: &Soup<N>, last: usize) -> usize
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    let mut it = soup.strict().into_iter();
    let mut whole = soup.iter();
    let down = match (it.next(), whole.next(), soup.strict().first()) {
        (None, None, None) => last,
        (Some(a), Some(b), Some(c)) if a.id() == b.id() && b.id() == c.id() => dive(&if a.id() % 2 == 0 { a.query() } else { c.query() }, a.id()),
        _ => usize::MAX,
    };
    // the rest of the searches is still there
    let rest = it.count();
    if 1 + rest < soup.strict().into_iter().count() { usize::MAX } else { down }
}

fn session_on<N: Make + Searchable>(nodes: Vec<N>, steps: &[Value]) -> Vec<usize>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    let mut m: Machine<N> = Machine { crowd: vec![], iters: vec![], queries: vec![], soups: vec![Some(Box::new(back::soup(nodes)))], kept: vec![] };
    let mut outs = vec![];
    for s in steps {
        let h = s["h"].as_u64().unwrap() as usize - 1;
        outs.push(match s["o"].as_str().unwrap() {
            "new" => {
                // the script never drops a document that is still borrowed
                let soup: &'static Soup<N> = unsafe { &*(&**m.soups[h].as_ref().expect("HARNESS dead") as *const Soup<N>) };
                let q = engine::start(soup);
                m.queries.push(Some(match s["m"].as_str().unwrap() {
                    "whole" => q,
                    "strict" => q.op(&Op::Strict),
                    _ => q.op(&Op::Recursive),
                }));
                0
            }
            "copy" => {
                let c = m.queries[h].as_ref().expect("HARNESS dead").copy().expect("HARNESS not copyable");
                m.queries.push(Some(c));
                0
            }
            "refine" => {
                let q = m.queries[h].take().expect("HARNESS dead");
                let op: &'static Op = Box::leak(Box::new(engine::op(&s["f"]).expect("HARNESS op")));
                m.queries[h] = Some(q.op(op));
                0
            }
            "run" => {
                let q = m.queries[h].take().expect("HARNESS dead");
                let how = if h % 2 == 0 { How::All } else { How::Into };
                m.iters.push(Some((q.run(how), None)));
                0
            }
            "first" => {
                let q = m.queries[h].take().expect("HARNESS dead");
                q.run(How::First).next().map_or(0, |i| i.id())
            }
            o @ ("next" | "hop") => {
                let by = if o == "hop" { s["m"].as_str().unwrap().parse().expect("HARNESS digit") } else { 0 };
                let (it, last) = m.iters[h].as_mut().expect("HARNESS dead");
                match if by == 0 { it.next() } else { it.nth(by) } {
                    Some(i) => {
                        let p = i.id();
                        *last = Some(i);
                        p
                    }
                    None => 0,
                }
            }
            "dup" => {
                let c = Soup::clone(m.soups[h].as_ref().expect("HARNESS dead"));
                m.soups.push(Some(Box::new(c)));
                0
            }
            "stir" => {
                stir(m.soups[h].as_ref().expect("HARNESS dead"), s["m"].as_str().unwrap(), if steps.len() > 10 { 20_000 } else { 100 });
                0
            }
            "crowd" => {
                // a copy of the document that outlives them
                m.kept.push(Box::new(Soup::clone(m.soups[h].as_ref().expect("HARNESS dead"))));
                let soup: &'static Soup<N> = unsafe { &*(&**m.kept.last().unwrap() as *const Soup<N>) };
                let k = m.crowd.len();
                for j in 0..100 * s["m"].as_str().unwrap().parse::<usize>().expect("HARNESS digit") {
                    m.crowd.push(match j % 3 {
                        0 => Box::new(soup.iter()),
                        1 => Box::new(soup.recursive().into_iter()),
                        _ => Box::new(soup.recursive().all()),
                    });
                }
                let mut out = vec![];
                for _ in 0..3 {
                    out = m.crowd[k..].iter_mut().map(|i| i.next().map_or(0, |i| i.id())).collect();
                }
                if out.iter().all(|o| *o == out[0]) { out[0] } else { usize::MAX }
            }
            "dive" => dive(m.soups[h].as_ref().expect("HARNESS dead"), 0),
            "sub" => {
                let last = m.iters[h].as_ref().expect("HARNESS dead").1.as_ref();
                let sub = last.map_or_else(|| back::soup(vec![]), soupy::query::QueryItem::query);
                m.soups.push(Some(Box::new(sub)));
                0
            }
            "dropq" => {
                m.queries[h] = None;
                0
            }
            "dropi" => {
                m.iters[h] = None;
                0
            }
            "drops" => {
                m.soups[h] = None;
                0
            }
            o => panic!("HARNESS unknown step {o}"),
        });
    }
    outs
}

pub fn session(rec: &Value) -> Value {
    let doc = back::doc(&rec["doc"]);
    let steps = rec["steps"].as_array().expect("HARNESS steps");
    let mut all: Vec<(&str, Vec<usize>)> = vec![];
    if let Some(n) = back::build::<back::Plain>(&doc) {
        all.push(("user-defined", session_on(n, steps)));
    }
    let mut canon = None;
    if let Some((n, c)) = back::shared(&doc) {
        all.push((SHARED, session_on(n, steps)));
        canon = Some(c);
    }
    let canon = canon.as_deref();
    #[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
    if let Some(n) = back::build::<soupy::parser::HTMLNode<back::Tagged>>(&doc) {
        all.push(("HTMLNode", session_on(n, steps)));
    }
    #[cfg(feature = "uses-xml")]
    if let Some(n) = back::build::<soupy::parser::XMLNode>(&doc) {
        all.push(("XMLNode", session_on(n, steps)));
    }
    let seen: Vec<Value> = all
        .iter()
        .map(|(by, o)| match canon {
            Some(c) if *by == SHARED => json!({"by": by, "outs": o, "canon": c[1..]}),
            _ => json!({"by": by, "outs": o}),
        })
        .collect();
    match rec.get("want") {
        Some(w) => match seen.iter().find(|s| s["outs"] != through(&w["outs"], canon.filter(|_| s["by"] == json!(SHARED)))) {
            Some(s) => s.clone(),
            None => w.clone(),
        },
        None => json!({ "seen": seen }),
    }
}

// ---- filters on their own -----------------------------------------------------------------------------

struct Dyn<N>(Box<dyn soupy::filter::Filter<N>>);
impl<N> soupy::filter::Filter<N> for Dyn<N> {
    fn matches(&self, n: &N) -> bool {
        self.0.matches(n)
    }
}

/// None: needs a feature this harness was built without.
fn filter_of<N: Searchable>(f: &Value) -> Option<Dyn<N>>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    use soupy::filter::{And, Attr, Or, Tag};
    let pat = |k: &str| Pat::new(&f[k]).map(|p| &*Box::leak(Box::new(p)));
    Some(Dyn(match f["o"].as_str().unwrap() {
        "true" => Box::new(()),
        "and" => Box::new(And(filter_of::<N>(&f["l"])?, filter_of::<N>(&f["r"])?)),
        "or" => Box::new(Or(filter_of::<N>(&f["l"])?, filter_of::<N>(&f["r"])?)),
        "tag" => Box::new(Tag { tag: pat("p")? }),
        "attr" => Box::new(Attr { name: pat("p")?, value: pat("v")? }),
        o => panic!("HARNESS unknown filter {o}"),
    }))
}

fn filter_on<N: Make + Searchable>(nodes: Vec<N>, suite: &[Value]) -> Vec<Option<Vec<usize>>>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    use soupy::filter::Filter;
    suite
        .iter()
        .map(|f| {
            let f = filter_of::<N>(f)?;
            let mut v = vec![];
            let mut stack: Vec<&N> = nodes.iter().rev().collect();
            while let Some(n) = stack.pop() {
                // asking twice must not change the answer
                let (a, b) = (f.matches(n), f.matches(n));
                if a {
                    v.push(n.id());
                }
                if a != b {
                    v.push(0);
                }
                stack.extend(n.children().iter().rev());
            }
            Some(v)
        })
        .collect()
}

pub fn filters(rec: &Value, suite: &[Value]) -> Value {
    let doc = back::doc(&rec["doc"]);
    let mut all: Vec<(&str, Vec<Option<Vec<usize>>>)> = vec![];
    if let Some(n) = back::build::<back::Plain>(&doc) {
        all.push(("user-defined", filter_on(n, suite)));
    }
    #[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
    if let Some(n) = back::build::<soupy::parser::HTMLNode<back::Tagged>>(&doc) {
        all.push(("HTMLNode", filter_on(n, suite)));
    }
    #[cfg(feature = "uses-xml")]
    if let Some(n) = back::build::<soupy::parser::XMLNode>(&doc) {
        all.push(("XMLNode", filter_on(n, suite)));
    }
    let Some(want) = rec.get("want") else {
        let seen: Vec<Value> = all.iter().map(|(by, g)| json!({"by": by, "accepted": g})).collect();
        return json!({ "seen": seen });
    };
    for (by, got) in &all {
        for (j, g) in got.iter().enumerate() {
            let Some(g) = g else { continue };
            if json!(g) != want["accepted"][j] {
                return json!({"by": by, "filter": suite[j], "accepted": g, "expected": want["accepted"][j]});
            }
        }
    }
    want.clone()
}

// ---- several threads at once ------------------------------------------------------------------------

mod shared {
    /// Whether a type may be shared between threads, without requiring it.
    pub struct Probe<T>(pub std::marker::PhantomData<T>);
    impl<T: Sync + Send> Probe<T> {
        #[allow(dead_code)]
        pub const OK: bool = true;
    }
    pub trait Fallback {
        const OK: bool = false;
    }
    impl<T> Fallback for Probe<T> {}

    pub struct Carry<T>(pub T);
    unsafe impl<T> Send for Carry<T> {}
    unsafe impl<T> Sync for Carry<T> {}
    impl<T> Carry<T> {
        pub fn get(&self) -> &T {
            &self.0
        }
    }
}

fn threads_on<N: Make + Searchable>(nodes: Vec<N>, suite: &[Option<&'static [Op]>]) -> Vec<Vec<Option<Vec<usize>>>>
where
    for<'p> &'p Pat: Pattern<N::Text>,
{
    use shared::Carry;
    let n = nodes.len();
    let cap = 1 << 20;
    let soup = Carry(back::soup(nodes));
    let whole = Carry(soup.get().recursive());
    let flat = Carry(soup.get().strict());
    let suite = Carry(suite);
    let _ = n;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|k| {
                let (soup, whole, flat, suite) = (&soup, &whole, &flat, &suite);
                s.spawn(move || {
                    let mut out: Vec<Option<Vec<usize>>> = vec![];
                    // copies of one and the same query, made in every thread
                    let (a, b) = (*whole.get(), *flat.get());
                    let mut x = a.into_iter();
                    let mut y = b.into_iter();
                    let (mut xs, mut ys) = (vec![], vec![]);
                    loop {
                        let (i, j) = (x.next(), y.next());
                        let done = i.is_none() && j.is_none();
                        xs.extend(i.map(|i| i.id()));
                        ys.extend(j.map(|j| j.id()));
                        if done || xs.len() + ys.len() > cap {
                            break;
                        }
                    }
                    let m = suite.get().len();
                    out.resize(m, None);
                    for j in 0..m {
                        // every thread in its own order
                        let j = (j * 7 + k * 3) % m;
                        if let Some(ops) = suite.get()[j] {
                            out[j] = Some(engine::query(soup.get(), ops).run(How::All).take(cap).map(|i| i.id()).collect());
                        }
                    }
                    for j in 0..m {
                        if let (Some(ops), None) = (suite.get()[j], &out[j]) {
                            out[j] = Some(engine::query(soup.get(), ops).run(How::All).take(cap).map(|i| i.id()).collect());
                        }
                    }
                    out.push(Some(xs));
                    out.push(Some(ys));
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    })
}

/// The suite's last two queries are the unfiltered recursive and strict ones.
pub fn threads(rec: &Value, suite: &[Option<&'static [Op]>]) -> Value {
    #[allow(unused_imports)]
    use shared::{Fallback, Probe};
    let doc = back::doc(&rec["doc"]);
    let suite = &suite[..suite.len() - 2];
    let mut all: Vec<(&str, bool, Vec<Vec<Option<Vec<usize>>>>)> = vec![];
    macro_rules! on {
        ($name:expr, $n:ty) => {
            if let Some(n) = back::build::<$n>(&doc) {
                let ok = Probe::<Soup<$n>>::OK
                    && Probe::<soupy::query::Query<'static, $n, ()>>::OK
                    && Probe::<soupy::query::QueryItem<'static, $n>>::OK;
                all.push(($name, ok, if ok { threads_on(n, suite) } else { vec![] }));
            }
        };
    }
    on!("user-defined", back::Plain);
    #[cfg(any(feature = "uses-strict", feature = "uses-lenient"))]
    on!("HTMLNode", soupy::parser::HTMLNode<back::Tagged>);
    #[cfg(feature = "uses-xml")]
    on!("XMLNode", soupy::parser::XMLNode);
    let mut seen = vec![];
    for (by, ok, runs) in all {
        if !ok {
            return json!({"by": by, "wrong": "cannot be shared between threads"});
        }
        for r in runs {
            seen.push(json!({"by": by, "all": r.iter().map(|x| x.as_ref().map_or(json!([]), |x| json!(x))).collect::<Vec<_>>()}));
        }
    }
    json!({ "seen": seen })
}

// ---- one tree in every format ---------------------------------------------------------------------------

trait View {
    fn view(&self, n: usize) -> Result<Value, String>;
}
impl<N> View for Built<N>
where
    N: Node<Text: AsRef<str> + std::fmt::Display> + 'static,
{
    fn view(&self, n: usize) -> Result<Value, String> {
        accessors(self, n, None, &[], |_, _| vec![], str::to_string)
    }
}

trait Format: Bench + Travel + View {}
impl<T: Bench + Travel + View> Format for T {}

pub fn formats(rec: &Value, suite: &[Option<&'static [Op]>]) -> Value {
    let doc = back::doc(&rec["doc"]);
    let n = doc.len();
    let mut all: Vec<(&str, Box<dyn Format>)> = vec![];
    if let Some(b) = built::<back::Plain>("user-defined", &doc) {
        all.push((b.name, Box::new(b)));
    }
    #[cfg(feature = "uses-strict")]
    {
        // the source outlives everything here
        let src: &'static str = Box::leak(flat::text(&rec["html"]).into_boxed_str());
        match Soup::html_strict(src) {
            Ok(s) => all.push(("html_strict", Box::new(parsed("html_strict", s, top)))),
            Err(_) => return json!({"by": "html_strict", "wrong": "rejected"}),
        }
    }
    #[cfg(feature = "uses-xml")]
    match Soup::xml(flat::text(&rec["xml"]).as_bytes()) {
        Ok(s) => all.push(("xml", Box::new(parsed("xml", s, top)))),
        Err(_) => return json!({"by": "xml", "wrong": "rejected"}),
    }
    #[cfg(feature = "uses-lenient")]
    {
        let whole = Soup::html(flat::text(&rec["html"]));
        match whole.tag("body").first() {
            Some(b) => all.push(("html", Box::new(parsed("html", b.query(), top)))),
            None => return json!({"by": "html", "wrong": "no body"}),
        }
    }
    let want = rec.get("want");
    let mut seen = vec![];
    for (by, b) in all {
        let mut got = json!({"by": by});
        match b.view(n) {
            Ok(mut v) => {
                for x in v["nodes"].as_array_mut().unwrap() {
                    x.as_object_mut().unwrap().remove("get");
                }
                got["nodes"] = v["nodes"].clone();
            }
            Err(e) => return json!({"by": by, "wrong": e}),
        }
        match b.travel(&json!({"desc": vec![0; n]})) {
            Ok(v) => got["travel"] = v,
            Err(e) => return json!({"by": by, "wrong": e}),
        }
        let mut lists = (vec![], vec![]);
        for a in b.answers(suite, 2 * n + 8) {
            let Some((a, into, first)) = a else {
                lists.0.push(Value::Null);
                lists.1.push(Value::Null);
                continue;
            };
            if a != into || first_of(&a) != first {
                return json!({"by": by, "all": a, "iterated": into, "first": first});
            }
            lists.1.push(json!(first.first().copied().unwrap_or(0)));
            lists.0.push(json!(a));
        }
        got["all"] = json!(lists.0);
        got["first"] = json!(lists.1);
        if let Some(w) = want {
            let w = sorted_attrs(w);
            for k in ["all", "first"] {
                for (j, g) in got[k].as_array().unwrap().iter().enumerate() {
                    if !g.is_null() && *g != w[k][j] {
                        return json!({"by": by, "query": j, "got": g, "expected": w[k][j]});
                    }
                }
            }
            for k in ["nodes", "travel"] {
                if got[k] != w[k] {
                    return json!({"by": by, k: got[k]});
                }
            }
        }
        seen.push(got);
    }
    match want {
        Some(w) => w.clone(),
        None => json!({ "seen": seen }),
    }
}
