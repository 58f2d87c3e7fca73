//! Which part of an observation a property is about.

use serde_json::{json, Value};

pub enum Verdict {
    Same,
    Differs,
    Skipped,
}

/// Attribute lists are sets: order them before comparing.
fn normal(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(doc) = v.get_mut("doc").and_then(Value::as_array_mut) {
        for node in doc {
            for key in ["a", "nm"] {
                if let Some(a) = node.get_mut(key).and_then(Value::as_array_mut) {
                    a.sort_by_cached_key(|p| p.to_string());
                }
            }
        }
    }
    v
}

fn project(doc: &Value, keep: impl Fn(&Value) -> bool, keys: &[&str]) -> Value {
    Value::Array(
        doc.as_array()
            .map(|d| {
                d.iter()
                    .filter(|n| keep(n))
                    .map(|n| Value::Array(keys.iter().map(|k| n[*k].clone()).collect()))
                    .collect()
            })
            .unwrap_or_default(),
    )
}

fn cps(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|c| c.as_u64().unwrap()).collect()
}

/// Line ends in one form.
fn no_cr(v: &Value) -> Vec<u64> {
    let t = cps(v);
    let mut out = vec![];
    for (i, c) in t.iter().enumerate() {
        match c {
            13 if t.get(i + 1) == Some(&10) => {}
            13 => out.push(10),
            c => out.push(*c),
        }
    }
    out
}

fn blank(c: &u64) -> bool {
    matches!(c, 9 | 10 | 13 | 32)
}

/// An observed XML document in the form the specification speaks about.
fn xml_doc(doc: &Value, attrs: bool) -> Value {
    let doc = doc.as_array().unwrap();
    let mut out = vec![];
    for (i, n) in doc.iter().enumerate() {
        if n["k"] == "text" && cps(&n["t"]).iter().all(blank) && i > 0 && doc[i - 1]["k"] == "cdata" && doc[i - 1]["d"] == n["d"] {
            continue;
        }
        let mut n = n.clone();
        n["t"] = json!(no_cr(&n["t"]));
        let spaces = |v: &Value| json!(no_cr(v).iter().map(|c| if blank(c) { 32 } else { *c }).collect::<Vec<_>>());
        let mut a: Vec<Value> = n["a"].as_array().unwrap().clone();
        for p in &mut a {
            p[1] = spaces(&p[1]);
        }
        a.sort_by_cached_key(Value::to_string);
        n["a"] = if attrs { json!(a) } else { json!([]) };
        if n["k"] == "pi" && n["ns"] != json!([]) {
            let d: Vec<u64> = no_cr(&n["ns"][0]).into_iter().skip_while(blank).collect();
            n["ns"] = if d.is_empty() { json!([]) } else { json!([d]) };
        }
        let mut nm: Vec<Value> = n["nm"].as_array().unwrap().clone();
        nm.retain(|p| *p != json!([[], []]) && p[0] != json!([120, 109, 108]) && p[0] != json!([120, 109, 108, 110, 115]));
        for p in &mut nm {
            p[1] = spaces(&p[1]);
        }
        if n["k"] == "el" && n["ns"] != json!([]) {
            n["ns"] = json!([spaces(&n["ns"][0])]);
        }
        nm.sort_by_cached_key(Value::to_string);
        n["nm"] = json!(nm);
        out.push(n);
    }
    json!(out)
}

fn xml(facet: &str, want: &Value, got: &Value) -> Verdict {
    let verdict = |same: bool| if same { Verdict::Same } else { Verdict::Differs };
    let ok = match want["verdict"].as_str().unwrap() {
        "open" => return Verdict::Skipped,
        v => v == "ok",
    };
    if facet == "xmlok" && !ok {
        return Verdict::Skipped;
    }
    if got["ok"] != json!(ok) || facet == "xmlstatus" || !ok {
        return verdict(got["ok"] == json!(ok));
    }
    let attrs = want["free"] != json!(true);
    verdict(xml_doc(&want["doc"], attrs) == xml_doc(&got["doc"], attrs))
}

pub fn compare(facet: &str, rec: &Value, got: &Value) -> Verdict {
    let want = &rec["want"];
    let verdict = |same: bool| if same { Verdict::Same } else { Verdict::Differs };
    if got.get("panic").is_some() {
        return Verdict::Differs;
    }
    // what the specification leaves open
    let free = want["free"] == json!(true);
    if rec["op"] == "reader" && got["same"] == json!(false) {
        let cut = rec["plan"].as_array().unwrap().iter().any(|s| s[0] == "fail" || s[0] == "stop");
        if !cut {
            return Verdict::Differs;
        }
    }
    match facet {
        "xmlstatus" | "xmlfull" | "xmlok" => xml(facet, want, got),
        "total" => verdict(total(want, got)),
        "status" => verdict(want["ok"] == got["ok"]),
        _ if free => Verdict::Skipped,
        "okfull" if want["ok"] == json!(false) => Verdict::Skipped,
        "attrs" if want["ok"] == json!(false) => Verdict::Skipped,
        "attrs" => {
            let named = |n: &Value| n["n"] != json!([]);
            let (w, g) = (normal(want), normal(got));
            verdict(w["ok"] == g["ok"] && project(&w["doc"], named, &["n", "a"]) == project(&g["doc"], named, &["n", "a"]))
        }
        "names" => {
            let named = |n: &Value| n["n"] != json!([]);
            verdict(want["ok"] == got["ok"] && project(&want["doc"], named, &["d", "k", "n"]) == project(&got["doc"], named, &["d", "k", "n"]))
        }
        _ => {
            let mut w = normal(want);
            if let Some(o) = w.as_object_mut() {
                o.remove("free");
            }
            verdict(w == normal(got))
        }
    }
}

/// Every parser ended in one of the ways it may, and every search of a document came to an end.
fn total(want: &Value, got: &Value) -> bool {
    got.as_object().is_some_and(|g| {
        g.iter().all(|(p, v)| {
            let may = want[p].as_array().is_some_and(|w| w.contains(&v["end"]));
            let n = |k: &str| v[k].as_u64().unwrap_or(u64::MAX);
            may && (v["end"] != "document"
                || (n("iter") == n("nodes")
                    && n("below") == n("nodes")
                    && n("strict") == n("roots")
                    && n("attributed") <= n("named")
                    && n("named") <= n("nodes")
                    && n("never") == 0
                    && n("inner") < n("nodes").max(1)))
        })
    })
}
