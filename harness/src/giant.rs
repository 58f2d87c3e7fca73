//! Documents in run-length form, expanded to sizes that are never written down.

use serde_json::{json, Value};

use crate::flat::{self, Flat};

pub fn text(v: &Value) -> String {
    let mut s = String::new();
    for r in v.as_array().expect("HARNESS runs") {
        s.push_str(&flat::text(&r["t"]).repeat(r["n"].as_u64().unwrap() as usize));
    }
    s
}

pub fn nodes(v: &Value) -> Vec<Flat> {
    let mut out = vec![];
    for r in v.as_array().expect("HARNESS runs") {
        let b: Vec<Flat> = r["b"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| {
                let mut a: Vec<(String, String)> = x["a"].as_array().unwrap().iter().map(|p| (text(&p[0]), text(&p[1]))).collect();
                a.sort();
                Flat {
                    d: x["d"].as_u64().unwrap() as usize,
                    k: ["el", "void", "raw", "text", "comment", "doctype", "cdata", "pi"]
                        .into_iter()
                        .find(|k| x["k"] == *k)
                        .expect("HARNESS kind"),
                    n: text(&x["n"]),
                    a,
                    t: text(&x["t"]),
                }
            })
            .collect();
        for _ in 0..r["n"].as_u64().unwrap() {
            out.extend(b.iter().cloned());
        }
    }
    out
}

fn differs(want: &[Flat], got: &[Flat]) -> Value {
    let same = |a: &Flat, b: &Flat| {
        let mut x = b.a.clone();
        x.sort();
        a.d == b.d && a.k == b.k && a.n == b.n && a.a == x && a.t == b.t
    };
    if want.len() == got.len() && want.iter().zip(got).all(|(a, b)| same(a, b)) {
        return json!({"same": true});
    }
    let j = want.iter().zip(got).position(|(a, b)| !same(a, b)).unwrap_or(want.len().min(got.len()));
    let show = |l: &[Flat]| l.get(j).map(|f| json!([f.d, f.k, f.n.len(), f.a.len(), f.t.len()]));
    json!({"same": false, "nodes": got.len(), "expected": want.len(), "at": j, "is": show(got), "should": show(want)})
}

#[allow(unused_imports, unused_variables)]
pub fn giant(rec: &Value) -> Value {
    use soupy::parser::Parser;
    let src = text(&rec["src"]);
    let want = nodes(&rec["doc"]);
    match rec["fmt"].as_str().unwrap() {
        #[cfg(feature = "uses-strict")]
        "strict" => match soupy::parser::StrictHTMLParser::parse(&src) {
            Ok(n) => differs(&want, &flat::html(&n)),
            Err(_) => json!({"same": false, "rejected": true}),
        },
        #[cfg(feature = "uses-xml")]
        "xml" => match soupy::parser::XMLParser::parse(src.as_bytes()) {
            Ok(n) => differs(&want, &flat::xml_plain(&n)),
            Err(_) => json!({"same": false, "rejected": true}),
        },
        #[cfg(feature = "uses-xml")]
        "reader" => match soupy::parser::XMLParser::parse(Blocks::new(&src, &rec["plan"])) {
            Ok(n) => {
                let mut v = differs(&want, &flat::xml_plain(&n));
                v["rejected"] = json!(false);
                v
            }
            Err(_) => json!({"same": false, "rejected": true}),
        },
        #[cfg(feature = "uses-lenient")]
        "lenient" => {
            let Ok(n) = soupy::parser::LenientHTMLParser::parse(&src);
            let head = |d, n: &str| Flat { d, k: "el", n: n.into(), ..Flat::default() };
            let mut all = vec![head(0, "html"), head(1, "head"), head(1, "body")];
            all.extend(want.into_iter().map(|mut f| {
                f.d += 2;
                f
            }));
            differs(&all, &flat::html(&n))
        }
        _ => json!({"unavailable": true}),
    }
}

/// Delivers a text in blocks of one size, interrupted after every so many of them.
struct Blocks<'a> {
    rest: &'a [u8],
    block: usize,
    at: usize,
    every: u64,
    done: u64,
    fails: bool,
}

impl<'a> Blocks<'a> {
    fn new(src: &'a str, plan: &Value) -> Self {
        let fin = plan["fin"].as_str().expect("HARNESS fin");
        let n = if fin.ends_with("half") { src.len() / 2 } else { src.len() };
        let block = plan["block"].as_u64().unwrap() as usize;
        Blocks {
            rest: &src.as_bytes()[..n],
            block: if block == 0 { src.len() } else { block },
            at: 0,
            every: plan["every"].as_u64().unwrap(),
            done: 0,
            fails: fin.starts_with("fail"),
        }
    }
}

impl std::io::Read for Blocks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        // a read never reaches over the end of a block
        if self.at == self.block {
            self.at = 0;
            self.done += 1;
            if self.every > 0 && self.done % self.every == 0 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        let n = buf.len().min(self.block - self.at).min(self.rest.len());
        if n == 0 && self.fails {
            return Err(std::io::ErrorKind::Other.into());
        }
        buf[..n].copy_from_slice(&self.rest[..n]);
        self.rest = &self.rest[n..];
        self.at += n;
        Ok(n)
    }
}
